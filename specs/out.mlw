(* Text that is written, and reading it back *)
module Out
  use mem.Mem
  use mem.Str
  use num.Num
  use ctype.Ctype
  use num.Render
  use rdr.Rdr
  val ref o_text : map int int   (* everything written so far, as bytes 0..255 *)
  val ref o_n : int              (* and how much *)
  val constant o_fd : int        (* where it is written to *)

  (* the bytes m[p..p+n) were appended to the text t of length k *)
  predicate appended (t' : map int int) (t: map int int) (k: int) (m: map int int) (p n: int) =
    (forall a. a < k -> t'[a] = t[a]) /\ (forall a. k <= a < k + n -> t'[a] = u8 m[p + (a - k)])

  (* how the byte c (0..255) appears inside a written string: itself, or a backslash and the character esc c *)
  function esc (c: int) : int =
    if c = 0 then 48 else if c = 7 then 97 else if c = 8 then 98 else if c = 9 then 116 else if c = 11 then 118 else if c = 10 then 110
    else if c = 12 then 102 else if c = 13 then 114 else if c = 27 then 101 else if c = 92 then 92 else if c = 34 then 34 else 0
  function elen (c: int) : int = if esc c = 0 then 1 else 2
  predicate esc_at (t: map int int) (q c: int) = if esc c = 0 then t[q] = c else t[q] = 92 /\ t[q+1] = esc c
  let rec ghost function enclen (m: map int int) (p n: int) : int
    requires { 0 <= n }
    ensures { n <= result <= 2 * n }
    variant { n }
  = if n = 0 then 0 else enclen m p (n-1) + elen (u8 m[p + n - 1])
  (* at q, t holds the n bytes from p on as they appear inside a written string *)
  predicate encoded (t: map int int) (q: int) (m: map int int) (p n: int) =
    forall j. 0 <= j < n -> esc_at t (q + enclen m p j) (u8 m[p + j])

  let rec lemma enclen_mono (m: map int int) (p i n: int)
    requires { 0 <= i <= n }
    ensures { enclen m p i <= enclen m p n }
    ensures { i < n -> enclen m p i + elen (u8 m[p+i]) <= enclen m p n }
    variant { n }
  = if i < n then enclen_mono m p i (n-1)
  let rec lemma enclen_same (m m': map int int) (p n: int)
    requires { 0 <= n /\ forall a. p <= a < p + n -> m[a] = m'[a] }
    ensures { enclen m p n = enclen m' p n }
    variant { n }
  = if n > 0 then enclen_same m m' p (n-1)

  (* one more byte *)
  let ghost encoded_step (t t': map int int) (q: int) (m: map int int) (p n: int) : unit
    requires { 0 <= n /\ encoded t q m p n /\ esc_at t' (q + enclen m p n) (u8 m[p+n]) }
    requires { forall a. a < q + enclen m p n -> t'[a] = t[a] }
    ensures { encoded t' q m p (n+1) }
  = for j = 0 to n - 1 do
      invariant { forall i. 0 <= i < j -> esc_at t' (q + enclen m p i) (u8 m[p + i]) }
      enclen_mono m p j n;
      assert { esc_at t (q + enclen m p j) (u8 m[p + j]) }
    done

  (* reading a string's text: the characters from position r on *)
  function swidth (q: int) : int = if inp[q] <> 92 then 1 else if inp[q+1] = 120 then lit_end (q+2) 16 - q else 2
  function svalue (q: int) : int =
    if inp[q] <> 92 then inp[q] else
    let c = inp[q+1] in
    if c = 48 then 0 else if c = 97 then 7 else if c = 98 then 8 else if c = 116 then 9 else if c = 110 then 10 else if c = 118 then 11
    else if c = 102 then 12 else if c = 114 then 13 else if c = 101 then 27 else if c = 120 then cast_s32 (lit_value (q+2) 16) else c
  function spos (r: int) (k: int) : int
  axiom spos_0: forall r. spos r 0 = r
  axiom spos_1: forall r k. k >= 0 -> spos r (k+1) = spos r k + swidth (spos r k)
  (* a closing quote follows k characters of the string that starts at r *)
  predicate string_at (r k: int) = 0 <= k /\ inp[spos r k] = 34 /\ forall j. 0 <= j < k -> inp[spos r j] <> 34

  let ghost one_read (q c: int) : unit
    requires { 0 <= c <= 255 /\ esc_at inp q c }
    ensures { swidth q = elen c /\ svalue q = c /\ inp[q] <> 34 }
  = ()
  (* what write makes of a string, between quotes, is read as that string *)
  let ghost string_read (m: map int int) (p n r: int) : unit
    requires { 0 <= n /\ encoded inp r m p n /\ inp[r + enclen m p n] = 34 }
    requires { forall a. p <= a < p + n -> -128 <= m[a] <= 127 }
    ensures { string_at r n /\ spos r n = r + enclen m p n /\ forall j. 0 <= j < n -> svalue (spos r j) = u8 m[p+j] }
  = for j = 0 to n - 1 do
      invariant { spos r j = r + enclen m p j }
      invariant { forall i. 0 <= i < j -> inp[spos r i] <> 34 }
      invariant { forall i. 0 <= i < j -> svalue (spos r i) = u8 m[p+i] }
      assert { esc_at inp (r + enclen m p j) (u8 m[p+j]) };
      one_read (r + enclen m p j) (u8 m[p+j]);
      assert { inp[spos r j] <> 34 /\ svalue (spos r j) = u8 m[p+j] /\ swidth (spos r j) = elen (u8 m[p+j]) };
      assert { spos r (j+1) = spos r j + swidth (spos r j) };
      assert { p + (j+1) - 1 = p + j };
      assert { enclen m p (j+1) = enclen m p j + elen (u8 m[p+j]) }
    done
  (* how a character is written behind the hash sign: at t[q..e), a backslash and its name, or itself *)
  predicate char_at (t: map int int) (q e c: int) = t[q] = 92 /\
    (c = 0 -> e = q + 4 /\ t[q + 1] = 110 /\ t[q + 2] = 117 /\ t[q + 3] = 108) /\
    (c = 7 -> e = q + 6 /\ t[q + 1] = 97 /\ t[q + 2] = 108 /\ t[q + 3] = 97 /\ t[q + 4] = 114 /\ t[q + 5] = 109) /\
    (c = 8 -> e = q + 10 /\ t[q + 1] = 98 /\ t[q + 2] = 97 /\ t[q + 3] = 99 /\ t[q + 4] = 107 /\ t[q + 5] = 115 /\ t[q + 6] = 112 /\ t[q + 7] = 97 /\ t[q + 8] = 99 /\ t[q + 9] = 101) /\
    (c = 9 -> e = q + 4 /\ t[q + 1] = 116 /\ t[q + 2] = 97 /\ t[q + 3] = 98) /\
    (c = 10 -> e = q + 8 /\ t[q + 1] = 110 /\ t[q + 2] = 101 /\ t[q + 3] = 119 /\ t[q + 4] = 108 /\ t[q + 5] = 105 /\ t[q + 6] = 110 /\ t[q + 7] = 101) /\
    (c = 11 -> e = q + 5 /\ t[q + 1] = 118 /\ t[q + 2] = 116 /\ t[q + 3] = 97 /\ t[q + 4] = 98) /\
    (c = 12 -> e = q + 5 /\ t[q + 1] = 112 /\ t[q + 2] = 97 /\ t[q + 3] = 103 /\ t[q + 4] = 101) /\
    (c = 13 -> e = q + 7 /\ t[q + 1] = 114 /\ t[q + 2] = 101 /\ t[q + 3] = 116 /\ t[q + 4] = 117 /\ t[q + 5] = 114 /\ t[q + 6] = 110) /\
    (c = 32 -> e = q + 6 /\ t[q + 1] = 115 /\ t[q + 2] = 112 /\ t[q + 3] = 97 /\ t[q + 4] = 99 /\ t[q + 5] = 101) /\
    (not (c = 0 \/ 7 <= c <= 13 \/ c = 32) -> e = q + 2 /\ t[q + 1] = c)
  (* what write makes of a character, and the end of a word, is read as that character *)
  let ghost char_read (q e c: int) : unit
    requires { 0 <= c <= 255 /\ char_at inp q e c /\ eow inp[e] }
    ensures { named (q+1) -> known_name (q+1) /\ name_value (q+1) = c /\ name_end (q+1) = e }
    ensures { not named (q+1) -> inp[q+1] = c /\ e = q + 2 }
    ensures { not (oct_char inp[q+1] /\ oct_char inp[q+2]) /\ not (inp[q+1] = 120 /\ hex_char inp[q+2]) }
  = assert { not name_char inp[e] /\ not oct_char inp[e] /\ not hex_char inp[e] };
    (if c = 0 then assert { n_nul (q+1) by inp[q+1+0] = 110 /\ inp[q+1+1] = 117 /\ inp[q+1+2] = 108 /\ inp[q+1+3] = inp[e] });
    (if c = 7 then assert { n_alarm (q+1) by inp[q+1+0] = 97 /\ inp[q+1+1] = 108 /\ inp[q+1+2] = 97 /\ inp[q+1+3] = 114 /\ inp[q+1+4] = 109 /\ inp[q+1+5] = inp[e] });
    (if c = 8 then assert { n_backspace (q+1) by inp[q+1+0] = 98 /\ inp[q+1+1] = 97 /\ inp[q+1+2] = 99 /\ inp[q+1+3] = 107 /\ inp[q+1+4] = 115 /\ inp[q+1+5] = 112 /\ inp[q+1+6] = 97 /\ inp[q+1+7] = 99 /\ inp[q+1+8] = 101 /\ inp[q+1+9] = inp[e] });
    (if c = 9 then assert { n_tab (q+1) by inp[q+1+0] = 116 /\ inp[q+1+1] = 97 /\ inp[q+1+2] = 98 /\ inp[q+1+3] = inp[e] });
    (if c = 10 then assert { n_newline (q+1) by inp[q+1+0] = 110 /\ inp[q+1+1] = 101 /\ inp[q+1+2] = 119 /\ inp[q+1+3] = 108 /\ inp[q+1+4] = 105 /\ inp[q+1+5] = 110 /\ inp[q+1+6] = 101 /\ inp[q+1+7] = inp[e] });
    (if c = 11 then assert { n_vtab (q+1) by inp[q+1+0] = 118 /\ inp[q+1+1] = 116 /\ inp[q+1+2] = 97 /\ inp[q+1+3] = 98 /\ inp[q+1+4] = inp[e] });
    (if c = 12 then assert { n_page (q+1) by inp[q+1+0] = 112 /\ inp[q+1+1] = 97 /\ inp[q+1+2] = 103 /\ inp[q+1+3] = 101 /\ inp[q+1+4] = inp[e] });
    (if c = 13 then assert { n_return (q+1) by inp[q+1+0] = 114 /\ inp[q+1+1] = 101 /\ inp[q+1+2] = 116 /\ inp[q+1+3] = 117 /\ inp[q+1+4] = 114 /\ inp[q+1+5] = 110 /\ inp[q+1+6] = inp[e] });
    (if c = 32 then assert { n_space (q+1) by inp[q+1+0] = 115 /\ inp[q+1+1] = 112 /\ inp[q+1+2] = 97 /\ inp[q+1+3] = 99 /\ inp[q+1+4] = 101 /\ inp[q+1+5] = inp[e] })
  let ghost swidth_pos (q: int) : unit
    ensures { swidth q >= 1 }
    ensures { inp[q] = 92 -> swidth q >= 2 }
  = dgl_min (lit_start (q+2)) 16 0
  let rec ghost spos_mono (r j k: int) : unit
    requires { 0 <= j <= k }
    ensures { spos r j <= spos r k /\ (j < k -> spos r j + swidth (spos r j) <= spos r k) }
    variant { k - j }
  = if j < k then begin assert { spos r (j+1) = spos r j + swidth (spos r j) }; swidth_pos (spos r j); spos_mono r (j+1) k end
  let ghost cast_down (v: int) : unit
    ensures { mod (cast_s32 (cast_s64 v)) 256 = mod (cast_s32 v) 256 }
  = ()
  (* the decimal numeral of v at t[q..e) *)
  predicate number_at (t: map int int) (q e v: int) =
    let s = if v < 0 then q + 1 else q in
    (v < 0 -> t[q] = 45) /\ 1 <= e - s <= 64 /\ nv t s (e - s) 10 = (if v < 0 then 0 - v else v) /\ (t[s] <> 48 \/ e - s = 1) /\ forall a. s <= a < e -> 48 <= t[a] <= 57
  let rec ghost nv_copy (m t: map int int) (r p n b: int) : unit
    requires { 0 <= n /\ forall a. p <= a < p + n -> t[a] = m[r + (a - p)] }
    ensures { nv m r n b = nv t p n b }
    variant { n }
  = if n > 0 then begin nv_copy m t r p (n-1) b; assert { t[p+n-1] = m[r + (p+n-1-p)] } end
  let ghost number_written (t m: map int int) (q r n v: int) : unit
    requires { if v < 0 then m[r] = 45 /\ numeral m (r+1) 10 (0 - v) /\ n = 1 + slen m (r+1) else numeral m r 10 v /\ n = slen m r }
    requires { forall a. q <= a < q + n -> t[a] = u8 m[r + (a - q)] }
    ensures { number_at t q (q + n) v }
  = let s = if v < 0 then q + 1 else q in let z = if v < 0 then r + 1 else r in
    let e = q + n in
    (if v < 0 then assert { t[q] = u8 m[r + (q - q)] });
    for a = s to e - 1 do invariant { forall x. s <= x < a -> t[x] = m[z + (x - s)] /\ 48 <= t[x] <= 57 }
      let y = z + (a - s) in assert { digitval m[y] < 10 /\ (48 <= m[y] <= 57 \/ 97 <= m[y] <= 122) }; assert { 48 <= m[y] <= 57 }; assert { t[a] = u8 m[r + (a - q)] /\ r + (a - q) = y } done;
    assert { t[s] = m[z + (s - s)] };
    nv_copy m t z s (e - s) 10
  let ghost number_read (p e v: int) : unit
    requires { number_at inp p e v /\ eow inp[e] }
    ensures { is_dec p /\ dec_value p = v /\ dec_end p = e }
  = let s = if v < 0 then p + 1 else p in
    assert { c_digit inp[s] };
    assert { forall a. s <= a < s + (e - s) -> digitval inp[a] < 10 };
    assert { digitval inp[e] >= 10 };
    dgl_is inp s 10 (e - s);
    assert { dec_start p = s }
  let ghost encoded_kept (t t': map int int) (q: int) (m: map int int) (p n: int) : unit
    requires { 0 <= n /\ encoded t q m p n /\ forall a. a < q + enclen m p n -> t'[a] = t[a] }
    ensures { encoded t' q m p n }
  = for j = 0 to n - 1 do
      invariant { forall i. 0 <= i < j -> esc_at t' (q + enclen m p i) (u8 m[p + i]) }
      enclen_mono m p j n;
      assert { esc_at t (q + enclen m p j) (u8 m[p + j]) }
    done
  let ghost numeral_text (m: map int int) (r v: int) : unit
    requires { 0 < r /\ v < 0 /\ m[r] = 45 /\ numeral m (r+1) 10 (0 - v) }
    ensures { slen m r = 1 + slen m (r+1) /\ str m r }
  = let k = slen m (r+1) in
    assert { forall a. r <= a < r + (1 + k) -> m[a] <> 0 };
    slen_is m r (1 + k)
  let ghost low_byte (v: int) : unit ensures { u8 (cast_s8 v) = mod v 256 } = ()
end
