# ---------------------------------------------------------------- L07 text -> integer
fn abtol
  file lib/mes/abtol.c
  params p base
  opt wrap
  uses mem.Str ctype.Ctype num.Num
  requires 0 < p /\ v64[p]
  requires[valid-text] vstr m8 v8 m64[p]
  requires base = 0 \/ 2 <= base <= 36
  writes m64
  ensures[value] let b = if base = 0 then 10 else base in in_s64 (num_value m8 (old m64)[p] b) -> result = num_value m8 (old m64)[p] b
  ensures[value-mod] let b = if base = 0 then 10 else base in result = cast_s64 (num_value m8 (old m64)[p] b)
  ensures[end-pointer] m64[p] = num_end m8 (old m64)[p] (if base = 0 then 10 else base)
  ensures[frame] m64 = set (old m64) p m64[p]
  loop
    inv[skipping] m64_in[p] <= s <= m64_in[p] + slen m8 m64_in[p] /\ i = 0 /\ sign_p = 0 /\ base = (if base_0 = 0 then 10 else base_0)
    inv[space] forall a. m64_in[p] <= a < s -> c_space m8[a]
    variant m64_in[p] + slen m8 m64_in[p] - s
    after wsl_is m8 m64_in[p] (s - m64_in[p])
  loop
    inv[position] num_start m8 m64_in[p] <= s <= m64_in[p] + slen m8 m64_in[p]
    inv[sign] sign_p <> 0 <-> num_neg m8 m64_in[p]
    inv[digits] forall a. num_start m8 m64_in[p] <= a < s -> digitval m8[a] < base
    inv[value] i = cast_s64 (nv m8 (num_start m8 m64_in[p]) (s - num_start m8 m64_in[p]) base)
    start let q = num_start m8 m64_in[p] in num_step (nv m8 q (s - q) base) base m8[s] (if m8[s] > 90 then 87 else if m8[s] > 57 then 55 else 48)
    variant m64_in[p] + slen m8 m64_in[p] - s
    after let q = num_start m8 m64_in[p] in dgl_is m8 q base (s - q); neg_step (nv m8 q (s - q) base)

fn atoi
  file lib/stdlib/atoi.c
  params s
  opt wrap
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 s
  writes m64 v64
  ensures[value] in_s32 (num_value m8 s 10) -> result = num_value m8 s 10
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64

fn atol
  file lib/stdlib/atol.c
  params s
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 s
  writes m64 v64
  ensures[value] in_s64 (num_value m8 s 10) -> result = num_value m8 s 10
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64

fn strtol
  file lib/stdlib/strtol.c
  params string tailptr base
  opt wrap
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 string
  requires tailptr = 0 \/ 0 < tailptr /\ v64[tailptr]
  requires base = 0 \/ 2 <= base <= 36
  writes m64 v64
  ensures[value] in_s64 (sl_value m8 string base) -> result = sl_value m8 string base
  ensures[value-mod] result = cast_s64 (sl_value m8 string base)
  ensures[end-pointer] tailptr <> 0 -> m64[tailptr] = sl_end m8 string base
  ensures[frame] forall a. (old v64)[a] -> a <> tailptr -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64
  loop
    inv[skipping] string_0 <= m64[s] <= string_0 + slen m8 string_0 /\ sign_p = 0
    inv[space] forall a. string_0 <= a < m64[s] -> c_space m8[a]
    inv[frame] forall a. a <> s -> m64[a] = m64_in[a]
    variant string_0 + slen m8 string_0 - m64[s]
    after wsl_is m8 string_0 (m64[s] - string_0)
  hook[before:abtol#0] ghost (if m64[s] <> string_0 then (assert { hexprefix m8 (num_start m8 string_0) base_0 }; assert { m64[s] = num_start m8 string_0 + 2}; assert { c_xdigit m8[num_start m8 string_0 + 2] }; assert { not c_space m8[m64[s]] }; slen_is m8 m64[s] (slen m8 string_0 - (m64[s] - string_0)); wsl_is m8 m64[s] 0))
  post neg_step (let q = num_start m8 string_0 in nv m8 (q+2) (dgl m8 (q+2) 16) 16)

fn strtoul
  file lib/stdlib/strtoul.c
  params string tailptr base
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 string
  requires tailptr = 0 \/ 0 < tailptr /\ v64[tailptr]
  requires base = 0 \/ 2 <= base <= 36
  writes m64 v64
  ensures[value] 0 <= sl_value m8 string base <= 9223372036854775807 -> result = sl_value m8 string base
  ensures[value-mod] result = cast_u64 (sl_value m8 string base)
  ensures[end-pointer] tailptr <> 0 -> m64[tailptr] = sl_end m8 string base
  ensures[frame] forall a. (old v64)[a] -> a <> tailptr -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64

fn strtoll
  file lib/stdlib/strtoll.c
  params string tailptr base
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 string
  requires tailptr = 0 \/ 0 < tailptr /\ v64[tailptr]
  requires base = 0 \/ 2 <= base <= 36
  writes m64 v64
  ensures[value] in_s64 (sl_value m8 string base) -> result = sl_value m8 string base
  ensures[end-pointer] tailptr <> 0 -> m64[tailptr] = sl_end m8 string base
  ensures[frame] forall a. (old v64)[a] -> a <> tailptr -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64

fn strtoull
  file lib/stdlib/strtoull.c
  params string tailptr base
  uses mem.Str ctype.Ctype num.Num
  requires[valid-text] vstr m8 v8 string
  requires tailptr = 0 \/ 0 < tailptr /\ v64[tailptr]
  requires base = 0 \/ 2 <= base <= 36
  writes m64 v64
  ensures[value] 0 <= sl_value m8 string base <= 9223372036854775807 -> result = sl_value m8 string base
  ensures[value-mod] result = cast_u64 (sl_value m8 string base)
  ensures[end-pointer] tailptr <> 0 -> m64[tailptr] = sl_end m8 string base
  ensures[frame] forall a. (old v64)[a] -> a <> tailptr -> m64[a] = (old m64)[a]
  ensures[frame] v64 = old v64

# ---------------------------------------------------------------- L06 integer -> text
fn __mesabi_uldiv
  file lib/mes/ntoab.c
  params a b remainder
  uses mem.Str
  requires b <> 0
  requires 0 < remainder /\ v64[remainder]
  writes m64
  ensures[quotient] result = div a b
  ensures[remainder] m64 = set (old m64) remainder (cast_s64 (mod a b))

fn ntoab
  file lib/mes/ntoab.c
  params x base signed_p
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  note malloc (66) is assumed to succeed
  inline assert_msg
  requires[base] 2 <= base <= 36
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] rendered m8 result base x signed_p
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32
  hook[after:malloc#0] assume { $r <> 0 }
  loop
    inv[position] u__itoa_buf + 1 <= p <= u__itoa_buf + 64 /\ b = base
    inv[digits] digits m8 (p+1) (u__itoa_buf + 64 - p) base
    inv[digits] forall a. p < a < u__itoa_buf + 65 -> (48 <= m8[a] <= 57 \/ 97 <= m8[a] <= 122)
    inv[end] m8[u__itoa_buf + 65] = 0
    inv[value] absval x signed_p = u * power base (u__itoa_buf + 64 - p) + nv m8 (p+1) (u__itoa_buf + 64 - p) base
    inv[room] u * power 2 (u__itoa_buf + 64 - p) < 18446744073709551616
    inv[more] p < u__itoa_buf + 64 -> u > 0
    inv[sign] sign_p <> 0 <-> (signed_p <> 0 /\ x < 0)
    inv[frame] forall a. not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = m8_in[a]
    inv[frame] forall a. a <> i -> m64[a] = m64_in[a]
    variant u
    loop-pre assert { power base 0 = 1 /\ power 2 0 = 1 /\ nv m8 (p+1) 0 base = 0 }
    end assert { digitval m8[p+1] = mod (u at L0) base }
    end render_round (pure { m8 at L0 }) m8 (p+1) (u__itoa_buf + 63 - p) base (pure { u at L0 }) (absval x signed_p)
    end assert { u = 0 -> m8[p+1] <> 48 \/ p = u__itoa_buf + 63 }
    after gm <- m8
    after nv_bounds m8 (p+1) (u__itoa_buf + 64 - p) base
    after assert { m8[p+1] = 48 -> p = u__itoa_buf + 63 /\ nv m8 (p+1) 1 base = 0 by nv m8 (p+1) 1 base = nv m8 (p+1) 0 base * base + digitval 48 }
    after assert { nv m8 (p+1) (u__itoa_buf + 64 - p) base = absval x signed_p }
  hook[before:__mesabi_uldiv#0] div_round u (u__itoa_buf + 64 - p) base (absval x signed_p) (nv m8 (p+1) (u__itoa_buf + 64 - p) base)
  pre let ghost ref gm = m8 in
  post let q = (if signed_p <> 0 && x < 0 then result_ + 1 else result_) in nv_same gm m8 q (u__itoa_buf + 65 - q) base; is_numeral m8 q base (absval x signed_p) (u__itoa_buf + 65 - q)

fn itoa
  file lib/mes/itoa.c
  params x
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] if x < 0 then m8[result] = 45 /\ numeral m8 (result+1) 10 (0 - x) else numeral m8 result 10 x
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32

fn ltoa
  file lib/mes/ltoa.c
  params x
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] if x < 0 then m8[result] = 45 /\ numeral m8 (result+1) 10 (0 - x) else numeral m8 result 10 x
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32

fn ltoab
  file lib/mes/ltoab.c
  params x base
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  requires 2 <= base <= 36
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] if x < 0 then m8[result] = 45 /\ numeral m8 (result+1) base (0 - x) else numeral m8 result base x
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32

fn ultoa
  file lib/mes/ultoa.c
  params x
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] numeral m8 result 10 x
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32

fn utoa
  file lib/mes/utoa.c
  params x
  uses mem.Str ctype.Ctype num.Num num.Render int.Power sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  requires[state] u__itoa_buf = 0 \/ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  writes m8 m64 u__itoa_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[numeral] numeral m8 result 10 x
  ensures[in-buffer] u__itoa_buf <= result < u__itoa_buf + 66 /\ 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures[frame] forall a. (old v8)[a] -> not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[state] heap_ok u__brk kbrk v8
  ensures[buffer-kept] old u__itoa_buf <> 0 -> u__itoa_buf = old u__itoa_buf /\ v8 = old v8 /\ v64 = old v64 /\ v32 = old v32
  ensures[buffer-new] old u__itoa_buf = 0 -> forall a. u__itoa_buf <= a < u__itoa_buf + 66 -> not (old v8)[a]
  ensures[frame] m32 = old m32
