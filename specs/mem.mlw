(* Memory and machine arithmetic of the extracted C. *)
module Mem
  use export int.Int
  use export int.Abs
  use export int.MinMax
  use export int.EuclideanDivision
  use int.ComputerDivision as CD
  use export map.Map

  (* typed memory: one map per scalar size, and their allocation status *)
  val ref m8 : map int int
  val ref m16 : map int int
  val ref m32 : map int int
  val ref m64 : map int int
  val ref v8 : map int bool
  val ref v16 : map int bool
  val ref v32 : map int bool
  val ref v64 : map int bool
  val ref vs : map int bool
  (* the fields of an interpreter cell *)
  val ref f_type : map int int
  val ref f_car : map int int
  val ref f_cdr : map int int
  val ref errno : int

  val load_m8 (a: int) : int requires { v8[a] } ensures { result = m8[a] } ensures { -128 <= result <= 127 }
  val load_m16 (a: int) : int requires { v16[a] } ensures { result = m16[a] } ensures { -32768 <= result <= 32767 }
  val load_m32 (a: int) : int requires { v32[a] } ensures { result = m32[a] } ensures { -2147483648 <= result <= 2147483647 }
  val load_m64 (a: int) : int requires { v64[a] } ensures { result = m64[a] } ensures { -9223372036854775808 <= result <= 9223372036854775807 }
  val store_m8 (a x: int) : unit requires { v8[a] } writes { m8 } ensures { m8 = set (old m8) a x }
  val store_m16 (a x: int) : unit requires { v16[a] } writes { m16 } ensures { m16 = set (old m16) a x }
  val store_m32 (a x: int) : unit requires { v32[a] } writes { m32 } ensures { m32 = set (old m32) a x }
  val store_m64 (a x: int) : unit requires { v64[a] } writes { m64 } ensures { m64 = set (old m64) a x }
  val load_f_type (a: int) : int requires { vs[a] } ensures { result = f_type[a] } ensures { -9223372036854775808 <= result <= 9223372036854775807 }
  val load_f_car (a: int) : int requires { vs[a] } ensures { result = f_car[a] } ensures { -9223372036854775808 <= result <= 9223372036854775807 }
  val load_f_cdr (a: int) : int requires { vs[a] } ensures { result = f_cdr[a] } ensures { -9223372036854775808 <= result <= 9223372036854775807 }
  val store_f_type (a x: int) : unit requires { vs[a] } writes { f_type } ensures { f_type = set (old f_type) a x }
  val store_f_car (a x: int) : unit requires { vs[a] } writes { f_car } ensures { f_car = set (old f_car) a x }
  val store_f_cdr (a x: int) : unit requires { vs[a] } writes { f_cdr } ensures { f_cdr = set (old f_cdr) a x }

  (* automatic variables that need an address: fresh storage, given back on return *)
  val alloca_m8 (n: int) : int writes { v8 } ensures { 0 < result }
    ensures { forall k. 0 <= k < n -> not (old v8)[result + k] } ensures { forall a. result <= a < result + n -> not (old v8)[a] }
    ensures { forall a. v8[a] <-> ((old v8)[a] \/ result <= a < result + n) }
  val alloca_m32 (n: int) : int writes { v32 } ensures { 0 < result } ensures { 0 < n -> v32[result] /\ not (old v32)[result] }
    ensures { forall k. 0 <= k < n -> not (old v32)[result + 4 * k] }
    ensures { forall a. v32[a] <-> ((old v32)[a] \/ exists k. 0 <= k < n /\ a = result + 4 * k) }
  val alloca_m64 (n: int) : int writes { v64 } ensures { 0 < result } ensures { 0 < n -> v64[result] /\ not (old v64)[result] }
    ensures { forall k. 0 <= k < n -> not (old v64)[result + 8 * k] }
    ensures { 1 < n -> v64[result + 8] /\ not (old v64)[result + 8] }
    ensures { forall a. v64[a] <-> ((old v64)[a] \/ exists k. 0 <= k < n /\ a = result + 8 * k) }
  val alloca_struct (n: int) : int writes { vs } ensures { 0 < result }
    ensures { not (old vs)[result] } ensures { vs = set (old vs) result true }
  val restore_v8 (ghost s: map int bool) : unit writes { v8 } ensures { v8 = s }
  val restore_v32 (ghost s: map int bool) : unit writes { v32 } ensures { v32 = s }
  val restore_v64 (ghost s: map int bool) : unit writes { v64 } ensures { v64 = s }
  val restore_vs (ghost s: map int bool) : unit writes { vs } ensures { vs = s }

  val release_v8 (p n: int) : unit writes { v8 } ensures { forall a. v8[a] <-> ((old v8)[a] /\ not (p <= a < p + n)) }
  val release_v32 (p n: int) : unit writes { v32 } ensures { forall a. v32[a] <-> ((old v32)[a] /\ not exists k. 0 <= k < n /\ a = p + 4 * k) }
  val release_v64 (p n: int) : unit writes { v64 } ensures { forall a. v64[a] <-> ((old v64)[a] /\ not exists k. 0 <= k < n /\ a = p + 8 * k) }

  val any_ptr () : int ensures { 0 <= result }
  val noret_ () : int
  val any_s8 () : int ensures { -128 <= result <= 127 }
  val any_u8 () : int ensures { 0 <= result <= 255 }
  val any_s16 () : int ensures { -32768 <= result <= 32767 }
  val any_u16 () : int ensures { 0 <= result <= 65535 }
  val any_s32 () : int ensures { -2147483648 <= result <= 2147483647 }
  val any_u32 () : int ensures { 0 <= result <= 4294967295 }
  val any_s64 () : int ensures { -9223372036854775808 <= result <= 9223372036854775807 }
  val any_u64 () : int ensures { 0 <= result <= 18446744073709551615 }

  (* division and conversions *)
  function tquot (x y: int) : int = CD.div x y
  function trem (x y: int) : int = CD.mod x y
  val function ediv (x y: int) : int requires { y <> 0 } ensures { result = div x y }
  val function emod (x y: int) : int requires { y <> 0 } ensures { result = mod x y }
  val function tdiv (x y: int) : int requires { y <> 0 } ensures { result = CD.div x y }

  val function cast_u8 (x: int) : int ensures { result = mod x 256 }
  val function cast_u16 (x: int) : int ensures { result = mod x 65536 }
  val function cast_u32 (x: int) : int ensures { result = mod x 4294967296 }
  val function cast_u64 (x: int) : int ensures { result = mod x 18446744073709551616 }
  val function cast_s8 (x: int) : int ensures { result = mod (x + 128) 256 - 128 }
  val function cast_s16 (x: int) : int ensures { result = mod (x + 32768) 65536 - 32768 }
  val function cast_s32 (x: int) : int ensures { result = mod (x + 2147483648) 4294967296 - 2147483648 }
  val function cast_s64 (x: int) : int ensures { result = mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808 }

  predicate in_s32 (x: int) = -2147483648 <= x <= 2147483647
  predicate in_s64 (x: int) = -9223372036854775808 <= x <= 9223372036854775807
  predicate in_u64 (x: int) = 0 <= x <= 18446744073709551615
  predicate in_u32 (x: int) = 0 <= x <= 4294967295

  (* signed arithmetic: overflow is an obligation *)
  val add_s32 (x y: int) : int requires { in_s32 (x + y) } ensures { result = x + y }
  val sub_s32 (x y: int) : int requires { in_s32 (x - y) } ensures { result = x - y }
  val mul_s32 (x y: int) : int requires { in_s32 (x * y) } ensures { result = x * y }
  val add_s64 (x y: int) : int requires { in_s64 (x + y) } ensures { result = x + y }
  val sub_s64 (x y: int) : int requires { in_s64 (x - y) } ensures { result = x - y }
  val mul_s64 (x y: int) : int requires { in_s64 (x * y) } ensures { result = x * y }
  (* the same, wrapping (opt wrap) *)
  val wadd_s32 (x y: int) : int ensures { result = cast_s32 (x + y) } ensures { in_s32 (x + y) -> result = x + y }
  val wsub_s32 (x y: int) : int ensures { result = cast_s32 (x - y) } ensures { in_s32 (x - y) -> result = x - y }
  val wmul_s32 (x y: int) : int ensures { result = cast_s32 (x * y) } ensures { in_s32 (x * y) -> result = x * y }
  val wadd_s64 (x y: int) : int ensures { result = cast_s64 (x + y) } ensures { in_s64 (x + y) -> result = x + y }
  val wsub_s64 (x y: int) : int ensures { result = cast_s64 (x - y) } ensures { in_s64 (x - y) -> result = x - y }
  val wmul_s64 (x y: int) : int ensures { result = cast_s64 (x * y) } ensures { in_s64 (x * y) -> result = x * y }
  (* unsigned arithmetic wraps *)
  val add_u32 (x y: int) : int ensures { in_u32 result } ensures { x + y <= 4294967295 -> result = x + y } ensures { x + y > 4294967295 -> result = x + y - 4294967296 }
  val sub_u32 (x y: int) : int ensures { in_u32 result } ensures { x >= y -> result = x - y } ensures { x < y -> result = x - y + 4294967296 }
  val mul_u32 (x y: int) : int ensures { in_u32 result } ensures { x * y <= 4294967295 -> result = x * y } ensures { result = mod (x * y) 4294967296 }
  val add_u64 (x y: int) : int ensures { in_u64 result } ensures { x + y <= 18446744073709551615 -> result = x + y } ensures { x + y > 18446744073709551615 -> result = x + y - 18446744073709551616 }
  val sub_u64 (x y: int) : int ensures { in_u64 result } ensures { x >= y -> result = x - y } ensures { x < y -> result = x - y + 18446744073709551616 }
  val mul_u64 (x y: int) : int ensures { in_u64 result } ensures { x * y <= 18446744073709551615 -> result = x * y } ensures { result = mod (x * y) 18446744073709551616 }
  val div_s32 (x y: int) : int requires { y <> 0 } requires { in_s32 (CD.div x y) } ensures { result = CD.div x y }
  val rem_s32 (x y: int) : int requires { y <> 0 } requires { in_s32 (CD.div x y) } ensures { result = CD.mod x y }
  val div_s64 (x y: int) : int requires { y <> 0 } requires { in_s64 (CD.div x y) } ensures { result = CD.div x y }
  val rem_s64 (x y: int) : int requires { y <> 0 } requires { in_s64 (CD.div x y) } ensures { result = CD.mod x y }
  val div_u32 (x y: int) : int requires { y <> 0 } ensures { result = div x y }
  val rem_u32 (x y: int) : int requires { y <> 0 } ensures { result = mod x y }
  val div_u64 (x y: int) : int requires { y <> 0 } ensures { result = div x y }
  val rem_u64 (x y: int) : int requires { y <> 0 } ensures { result = mod x y }

  (* shifts: by less than the width *)
  function pow2 (n: int) : int
  axiom pow2_0: pow2 0 = 1
  axiom pow2_s: forall n [pow2 (n+1)]. n >= 0 -> pow2 (n+1) = 2 * pow2 n
  axiom pow2_pos: forall n. n >= 0 -> pow2 n >= 1
  val shl_s64 (x n: int) : int requires { 0 <= n < 64 } ensures { result = cast_s64 (x * pow2 n) }
  val shr_s64 (x n: int) : int requires { 0 <= n < 64 } ensures { result = div x (pow2 n) }
  val shl_u64 (x n: int) : int requires { 0 <= n < 64 } ensures { result = mod (x * pow2 n) 18446744073709551616 }
  val shr_u64 (x n: int) : int requires { 0 <= n < 64 } ensures { result = div x (pow2 n) }
  val shl_u32 (x n: int) : int requires { 0 <= n < 32 } ensures { result = mod (x * pow2 n) 4294967296 }
  val shr_u32 (x n: int) : int requires { 0 <= n < 32 } ensures { result = div x (pow2 n) }

  (* bitwise operations: uninterpreted here; named so that contracts can speak of them *)
  val function bw_and_s32 (x y: int) : int ensures { in_s32 result }
  val function bw_or_s32 (x y: int) : int ensures { in_s32 result }
  val function bw_xor_s32 (x y: int) : int ensures { in_s32 result }
  val function bw_and_s64 (x y: int) : int ensures { in_s64 result }
  val function bw_or_s64 (x y: int) : int ensures { in_s64 result }
  val function bw_xor_s64 (x y: int) : int ensures { in_s64 result }
  val function bw_and_u32 (x y: int) : int
  val function bw_or_u32 (x y: int) : int
  val function bw_and_u64 (x y: int) : int
  val function bw_or_u64 (x y: int) : int
  val function bw_xor_u64 (x y: int) : int
end

(* NUL-terminated strings and byte blocks *)
module Str
  use Mem
  function slen (m: map int int) (p: int) : int
  axiom slen_def: forall m p n. n >= 0 -> m[p+n] = 0 -> (forall a. p <= a < p + n -> m[a] <> 0) -> slen m p = n
  predicate str (m: map int int) (p: int) =
    0 < p /\ 0 <= slen m p <= 4611686018427387903 /\ m[p + slen m p] = 0 /\ forall a. p <= a < p + slen m p -> m[a] <> 0
  predicate range (v: map int bool) (p n: int) = forall a. p <= a < p + n -> v[a]
  predicate vstr (m: map int int) (v: map int bool) (p: int) = str m p /\ range v p (slen m p + 1)
  predicate same (m n: map int int) (p l: int) = forall a. p <= a < p + l -> m[a] = n[a]
  predicate same_except (m n: map int int) (p l: int) = forall a. not (p <= a < p + l) -> m[a] = n[a]
  predicate disjoint (p l q k: int) = p + l <= q \/ q + k <= p
  let ghost slen_is (m: map int int) (p n: int) : unit
    requires { n >= 0 /\ m[p+n] = 0 /\ forall a. p <= a < p + n -> m[a] <> 0 }
    ensures { slen m p = n } = ()
  (* character c occurs in the string at p *)
  predicate inset (m: map int int) (p c: int)
  axiom inset_def: forall m p c [inset m p c]. inset m p c <-> exists a. p <= a < p + slen m p /\ m[a] = c
  (* the l bytes at n occur at h *)
  predicate matchat (m: map int int) (h n l: int)
  axiom matchat_def: forall m h n l [matchat m h n l]. matchat m h n l <-> forall a. n <= a < n + l -> m[a] = m[h + (a - n)]
  function u8 (x: int) : int = if x < 0 then x + 256 else x
end
