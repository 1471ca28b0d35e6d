(* Long division in binary. *)
module Div
  use mem.Mem
  (* facts about single bits *)
  axiom or_bit: forall q [bw_or_u64 q 1]. mod q 2 = 0 -> bw_or_u64 q 1 = q + 1
  axiom xor_bit: forall x y [bw_xor_s32 x y]. 0 <= x <= 1 -> 0 <= y <= 1 -> bw_xor_s32 x y = (if x = y then 0 else 1)

  let ghost pow2_next (m: int) : unit requires { 0 <= m } ensures { pow2 (m + 1) = 2 * pow2 m } = ()
  let ghost pow2_up (n: int) : unit requires { 1 <= n } ensures { pow2 n = 2 * pow2 (n - 1) }
  = pow2_next (n - 1)
  let rec ghost pow2_add (a b: int) : unit requires { 0 <= a /\ 0 <= b } variant { b }
    ensures { pow2 (a + b) = pow2 a * pow2 b }
  = if b > 0 then begin pow2_add a (b - 1); pow2_up (a + b); pow2_up b; 
      assert { pow2 a * (2 * pow2 (b - 1)) = 2 * (pow2 a * pow2 (b - 1)) } end
  let ghost pow2_values () : unit
    ensures { pow2 1 = 2 /\ pow2 2 = 4 /\ pow2 4 = 16 /\ pow2 8 = 256 /\ pow2 16 = 65536 /\ pow2 32 = 4294967296 /\ pow2 64 = 18446744073709551616 }
  = pow2_up 1; pow2_add 1 1; pow2_add 2 2; pow2_add 4 4; pow2_add 8 8; pow2_add 16 16; pow2_add 32 32

  (* x has n binary digits or fewer, the top one at i: pow2 i <= x < pow2 (i + 1) *)
  predicate top (x i: int) = 0 <= i /\ pow2 i <= x < pow2 (i + 1)
  (* what is left after dropping i digits *)
  predicate dropped (x y i: int) = 0 <= i /\ 0 <= y /\ y * pow2 i <= x < (y + 1) * pow2 i
  let ghost pow2_ (n: int) : int requires { 0 <= n } ensures { result = pow2 n /\ result >= 1 } = pow2 n
  let ghost dropped_0 (x: int) : unit requires { 0 <= x } ensures { dropped x x 0 } = ()
  let ghost drop_more (x y z i n: int) : unit
    requires { dropped x y i /\ 0 <= n /\ z = div y (pow2 n) }
    ensures { dropped x z (i + n) }
    ensures { forall k. 0 <= k -> y < pow2 (n + k) -> z < pow2 k }
    ensures { z = 0 -> y < pow2 n }
  = pow2_add i n;
    let p = pow2_ n in let q = pow2_ i in
    assert { y = p * z + mod y p /\ 0 <= mod y p < p };
    assert { z * p <= y /\ y + 1 <= (z + 1) * p };
    assert { 0 <= z };
    assert { (z * p) * q <= y * q };
    assert { (y + 1) * q <= ((z + 1) * p) * q };
    assert { (z * p) * q = z * (q * p) /\ ((z + 1) * p) * q = (z + 1) * (q * p) };
    let lemma below (k: int) : unit requires { 0 <= k /\ y < pow2 (n + k) } ensures { z < pow2 k }
    = pow2_add n k; let r = pow2_ k in assert { z * p < p * r }; assert { z >= r -> z * p >= r * p } in ()


  (* one digit of the quotient *)
  let ghost digit (n d q r j: int) : unit
    requires { 1 <= j /\ 1 <= d /\ 0 <= q /\ n = q * (d * pow2 j) + r /\ 0 <= r < d * pow2 j }
    ensures { let e = d * pow2 (j - 1) in d * pow2 j = 2 * e /\ 0 < e
      /\ (r < e -> n = (2 * q) * e + r) /\ (r >= e -> n = (2 * q + 1) * e + (r - e) /\ 0 <= r - e < e) /\ (2 * q) * e <= n }
  = pow2_up j;
    assert { d * pow2 j = 2 * (d * pow2 (j - 1)) };
    assert { 0 < d * pow2 (j - 1) };
    assert { q * (2 * (d * pow2 (j - 1))) = (2 * q) * (d * pow2 (j - 1)) };
    assert { (2 * q + 1) * (d * pow2 (j - 1)) = (2 * q) * (d * pow2 (j - 1)) + d * pow2 (j - 1) }
  let ghost div_is (n d q r: int) : unit
    requires { n = q * d + r /\ 0 <= r < d } ensures { q = div n d /\ r = mod n d }
  = assert { n = d * div n d + mod n d /\ 0 <= mod n d < d };
    let u = q - div n d in
    assert { d * u = mod n d - r };
    assert { u >= 1 -> d * u >= d };
    assert { u <= -1 -> d * u <= - d }
  (* the divisor moved to the top of the word and back *)
  let ghost scaled (d k: int) : unit
    requires { top d k /\ k <= 63 }
    ensures { 18446744073709551616 <= d * pow2 (64 - k) }
    ensures { d * pow2 (63 - k) < 18446744073709551616 }
    ensures { forall j. 1 <= j <= 64 - k -> 0 <= d * pow2 (j - 1) < 18446744073709551616 /\ div (d * pow2 (j - 1)) 2 = (if j = 1 then div d 2 else d * pow2 (j - 2)) }
  = pow2_values (); pow2_add k (64 - k); pow2_add (k + 1) (63 - k);
    let p = pow2_ k in let q = pow2_ (64 - k) in let h = pow2_ (63 - k) in
    assert { d * q >= p * q };
    assert { pow2 (k + 1) * h = 18446744073709551616 };
    assert { d * h < pow2 (k + 1) * h };
    let lemma step (j: int) : unit requires { 1 <= j <= 64 - k }
      ensures { 0 <= d * pow2 (j - 1) < 18446744073709551616 /\ div (d * pow2 (j - 1)) 2 = (if j = 1 then div d 2 else d * pow2 (j - 2)) }
    = let e = pow2_ (j - 1) in pow2_add (j - 1) (64 - k - j); let f = pow2_ (64 - k - j) in
      assert { h = e * f }; assert { d * e <= (d * e) * f = d * h };
      if j >= 2 then begin pow2_up (j - 1); let g = pow2_ (j - 2) in assert { d * e = 2 * (d * g) }; div_is (d * e) 2 (d * g) 0 end in ()
end
