(* Numerals *)
module Num
  use mem.Mem
  use mem.Str
  use ctype.Ctype
  use int.Power

  (* value of the n digits at p, base b *)
  let rec ghost function nv (m: map int int) (p n b: int) : int
    variant { n }
  = if n <= 0 then 0 else nv m p (n-1) b * b + digitval m[p+n-1]

  predicate digits (m: map int int) (p n b: int) = forall a. p <= a < p + n -> digitval m[a] < b

  let rec lemma nv_same (m m': map int int) (p n b: int)
    requires { forall a. p <= a < p + n -> m[a] = m'[a] }
    ensures { nv m p n b = nv m' p n b }
    variant { n }
  = if n > 0 then nv_same m m' p (n-1) b

  (* prepending a digit *)
  let rec lemma nv_front (m: map int int) (p n b: int)
    requires { n >= 0 /\ b >= 0 }
    ensures { nv m p (n+1) b = digitval m[p] * power b n + nv m (p+1) n b }
    variant { n }
  = if n > 0 then begin
      nv_front m p (n-1) b;
      assert { power b n = b * power b (n-1) };
      assert { nv m p (n+1) b = nv m p n b * b + digitval m[p+n] };
      assert { nv m (p+1) n b = nv m (p+1) (n-1) b * b + digitval m[p+n] };
      assert { (digitval m[p] * power b (n-1) + nv m (p+1) (n-1) b) * b = digitval m[p] * (b * power b (n-1)) + nv m (p+1) (n-1) b * b };
      assert { nv m p n b = digitval m[p] * power b (n-1) + nv m (p+1) (n-1) b };
      assert { nv m p n b * b = (digitval m[p] * power b (n-1) + nv m (p+1) (n-1) b) * b };
      assert { digitval m[p] * power b n = digitval m[p] * (b * power b (n-1)) };
      assert { nv m p (n+1) b = digitval m[p] * (b * power b (n-1)) + (nv m (p+1) (n-1) b * b + digitval m[p+n]) };
      assert { nv m p (n+1) b = digitval m[p] * power b n + nv m (p+1) n b }
    end else begin
      assert { n = 0 /\ power b n = 1 };
      assert { nv m p 0 b = 0 /\ nv m (p+1) n b = 0 };
      assert { digitval m[p] * power b n = digitval m[p] };
      assert { nv m p 1 b = nv m p 0 b * b + digitval m[p] };
      assert { nv m p 1 b = digitval m[p] };
      assert { nv m p (n+1) b = digitval m[p] * power b n + nv m (p+1) n b }
    end

  let rec lemma nv_bounds (m: map int int) (p n b: int)
    requires { n >= 0 /\ 2 <= b }
    requires { digits m p n b }
    ensures { 0 <= nv m p n b }
    variant { n }
  = if n > 0 then nv_bounds m p (n-1) b

  (* machine words *)
  let ghost cast64_eqv (x: int) : int
    ensures { cast_s64 x = x + result * 18446744073709551616 }
  = assert { mod (x + 9223372036854775808) 18446744073709551616 = (x + 9223372036854775808) - 18446744073709551616 * div (x + 9223372036854775808) 18446744073709551616 };
    0 - div (x + 9223372036854775808) 18446744073709551616

  let ghost cast64_shift (x k: int) : unit
    ensures { cast_s64 (x + k * 18446744073709551616) = cast_s64 x }
  = let j = cast64_eqv x in let l = cast64_eqv (x + k * 18446744073709551616) in
    assert { cast_s64 (x + k * 18446744073709551616) - cast_s64 x = (k + l - j) * 18446744073709551616 };
    assert { 0 - 18446744073709551616 < cast_s64 (x + k * 18446744073709551616) - cast_s64 x < 18446744073709551616 };
    assert { k + l - j = 0 }

  (* one round of i = i * b; i = i + c - m on wrapping longs *)
  let ghost num_step (v b c m: int) : unit
    ensures { cast_s64 (cast_s64 (cast_s64 (cast_s64 v * b) + c) - m) = cast_s64 (v * b + c - m) }
  = let j = cast64_eqv v in
    let t = cast_s64 v * b in
    assert { t = v * b + (j * b) * 18446744073709551616 };
    let k = cast64_eqv t in
    let u = cast_s64 t + c in
    let l = cast64_eqv u in
    assert { cast_s64 u - m = (v * b + c - m) + (j * b + k + l) * 18446744073709551616 };
    cast64_shift (v * b + c - m) (j * b + k + l)

  let ghost neg_step (v: int) : unit
    ensures { cast_s64 (0 - cast_s64 v) = cast_s64 (0 - v) }
  = let j = cast64_eqv v in
    assert { 0 - cast_s64 v = (0 - v) + (0 - j) * 18446744073709551616 };
    cast64_shift (0 - v) (0 - j)

  (* leading white space, sign, digits *)
  function wsl (m: map int int) (p: int) : int
  axiom wsl_def: forall m p n. n >= 0 -> not c_space m[p+n] -> (forall a. p <= a < p + n -> c_space m[a]) -> wsl m p = n
  function dgl (m: map int int) (p b: int) : int
  axiom dgl_def: forall m p b n. n >= 0 -> digitval m[p+n] >= b -> (forall a. p <= a < p + n -> digitval m[a] < b) -> dgl m p b = n
  let ghost wsl_is (m: map int int) (p n: int) : unit
    requires { n >= 0 /\ not c_space m[p+n] /\ forall a. p <= a < p + n -> c_space m[a] }
    ensures { wsl m p = n } = ()
  let ghost dgl_is (m: map int int) (p b n: int) : unit
    requires { n >= 0 /\ digitval m[p+n] >= b /\ forall a. p <= a < p + n -> digitval m[a] < b }
    ensures { dgl m p b = n } = ()
  predicate is_sign (c: int) = c = 43 \/ c = 45
  (* start of the digits of the numeral in the text at p *)
  function num_start (m: map int int) (p: int) : int = let q = p + wsl m p in if is_sign m[q] then q + 1 else q
  function num_neg (m: map int int) (p: int) : bool = m[p + wsl m p] = 45
  function num_value (m: map int int) (p b: int) : int =
    let q = num_start m p in let v = nv m q (dgl m q b) b in if num_neg m p then 0 - v else v
  function num_end (m: map int int) (p b: int) : int = num_start m p + dgl m (num_start m p) b

  (* strtol: an accepted 0x prefix *)
  predicate hexprefix (m: map int int) (q b: int) = (b = 0 \/ b = 16) /\ m[q] = 48 /\ (m[q+1] = 120 \/ m[q+1] = 88) /\ c_xdigit m[q+2]
  function base_of (m: map int int) (q b: int) : int = if b = 0 then (if m[q] = 48 then 8 else 10) else b
  function sl_value (m: map int int) (p b: int) : int =
    let q = num_start m p in
    if hexprefix m q b then let v = nv m (q+2) (dgl m (q+2) 16) 16 in (if num_neg m p then 0 - v else v)
    else num_value m p (base_of m q b)
  function sl_end (m: map int int) (p b: int) : int =
    let q = num_start m p in
    if hexprefix m q b then q + 2 + dgl m (q+2) 16 else num_end m p (base_of m q b)
end

(* Rendering *)
module Render
  use mem.Mem
  use mem.Str
  use ctype.Ctype
  use int.Power
  use Num
  function absval (x signed: int) : int = if signed <> 0 /\ x < 0 then 0 - x else if x < 0 then x + 18446744073709551616 else x
  (* the string at r is the canonical numeral of v (>= 0) in base b *)
  predicate numeral (m: map int int) (r b v: int) =
    let n = slen m r in 0 < r /\ 1 <= n <= 64 /\ m[r+n] = 0 /\ digits m r n b /\ nv m r n b = v /\ (m[r] <> 48 \/ n = 1)
      /\ (forall a. r <= a < r + n -> (48 <= m[a] <= 57 \/ 97 <= m[a] <= 122))
  predicate rendered (m: map int int) (r b x signed: int) =
    if signed <> 0 /\ x < 0 then m[r] = 45 /\ numeral m (r+1) b (0 - x) else numeral m r b (absval x signed)

  let rec lemma pow_pos (b k: int)
    requires { 1 <= b /\ 0 <= k }
    ensures { power b k >= 1 }
    variant { k }
  = if k > 0 then (pow_pos b (k-1); assert { power b k = b * power b (k-1) })
  let rec lemma pow_mono (k: int)
    requires { 64 <= k }
    ensures { power 2 k >= 18446744073709551616 }
    variant { k }
  = if k > 64 then (pow_mono (k-1); assert { power 2 k = 2 * power 2 (k-1) })
    else begin
      assert { power 2 8 = 256 by power 2 4 = 16 };
      assert { power 2 16 = 65536 by power 2 16 = power 2 8 * power 2 8 };
      assert { power 2 32 = 4294967296 by power 2 32 = power 2 16 * power 2 16 };
      assert { power 2 64 = 18446744073709551616 by power 2 64 = power 2 32 * power 2 32 }
    end
  let ghost div_parts (u b: int) : unit
    requires { 2 <= b /\ 0 <= u }
    ensures { u = b * div u b + mod u b /\ 0 <= mod u b < b /\ 0 <= div u b /\ 2 * div u b <= u }
  = ()
  (* one round of the division loop *)
  let ghost div_round (u k b a t: int) : unit
    requires { 2 <= b /\ 0 <= u /\ 0 <= k /\ a = u * power b k + t /\ u * power 2 k < 18446744073709551616 }
    ensures { a = div u b * power b (k+1) + (mod u b * power b k + t) }
    ensures { div u b * power 2 (k+1) < 18446744073709551616 }
    ensures { 0 <= mod u b < b /\ 0 <= div u b }
    ensures { u > 0 -> div u b < u }
    ensures { k >= 63 -> div u b = 0 }
    ensures { div u b = 0 -> mod u b = u }
  = div_parts u b;
    let q = div u b in let r = mod u b in let w = power b k in let z = power 2 k in
    assert { power b (k+1) = b * w };
    assert { power 2 (k+1) = 2 * z };
    assert { u * w = (b * q + r) * w };
    assert { (b * q + r) * w = q * (b * w) + r * w };
    assert { u * w = q * (b * w) + r * w };
    assert { a = q * (b * w) + r * w + t };
    pow_pos 2 k;
    assert { q * (2 * z) = (2 * q) * z };
    assert { (2 * q) * z <= u * z };
    assert { q * power 2 (k+1) = q * (2 * z) };
    let bw = b * w in assert { power b (k+1) = bw };
    assert { q * power b (k+1) = q * bw };
    assert { a = q * bw + (r * w + t) };
    if k >= 63 then begin pow_mono (k+1); assert { div u b * power 2 (k+1) >= div u b * 18446744073709551616 } end



  let ghost render_round (m m': map int int) (q k b u a: int) : unit
    requires { 2 <= b /\ 0 <= u /\ 0 <= k /\ a = u * power b k + nv m (q+1) k b /\ u * power 2 k < 18446744073709551616 }
    requires { digitval m'[q] = mod u b /\ forall i. q + 1 <= i < q + 1 + k -> m'[i] = m[i] }
    ensures { a = div u b * power b (k+1) + nv m' q (k+1) b }
  = div_round u k b a (nv m (q+1) k b); nv_same m m' (q+1) k b; nv_front m' q k b;
    let w = power b k in
    let d = digitval m'[q] in let r = mod u b in let t = nv m (q+1) k b in
    assert { nv m' q (k+1) b = d * w + nv m' (q+1) k b };
    assert { nv m' (q+1) k b = t };
    assert { d = r };
    let dw = d * w in
    assert { dw = r * w };
    assert { nv m' q (k+1) b = dw + t };
    assert { a = div u b * power b (k+1) + (r * w + t) };
    assert { a = div u b * power b (k+1) + (dw + t) }

  let ghost is_numeral (m: map int int) (r b v n: int) : unit
    requires { 0 < r /\ 1 <= n <= 64 /\ m[r+n] = 0 }
    requires { digits m r n b }
    requires { nv m r n b = v }
    requires { m[r] <> 48 \/ n = 1 }
    requires { forall a. r <= a < r + n -> (48 <= m[a] <= 57 \/ 97 <= m[a] <= 122) }
    ensures { numeral m r b v }
  = slen_is m r n
end
