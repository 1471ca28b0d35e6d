# ---------------------------------------------------------------- L14 software division
extern __mesabi_div0
  params
  uses mem.Mem
  requires[divisor-not-zero] false
  writes -

fn __mesabi_log2i
  file lib/mes/div.c
  params g_D
  uses div.Div
  requires g_D > 0
  writes -
  ensures[top-bit] top g_D result /\ result <= 63
  pre pow2_values (); dropped_0 g_D
  loop
    inv[width] n = 64 \/ n = 32 \/ n = 16 \/ n = 8 \/ n = 4 \/ n = 2 \/ n = 1
    inv[dropped] dropped g_D_0 g_D i /\ 1 <= g_D < pow2 n /\ i + n <= 64
    start drop_more g_D_0 g_D (div g_D (pow2 (div n 2))) i (div n 2)
    variant n

fn __mesabi_uldiv1
  file lib/mes/div.c
  params g_N g_D remainder
  uses div.Div
  requires g_D > 0
  requires 0 < remainder /\ v64[remainder]
  writes m64
  ensures[quotient] result = div g_N g_D
  ensures[remainder] m64 = set (old m64) remainder (cast_s64 (mod g_N g_D))
  hook[after:__mesabi_log2i#0] scaled g_D $r; k <- $r
  pre let ghost ref k = 0 in
  loop
    inv[position] 0 <= j <= 64 - k
    inv[divisor] j > 0 -> g_D = g_D_0 * pow2 (j - 1)
    inv[identity] g_N = quotient * (g_D_0 * pow2 j) + g_R /\ 0 <= g_R < g_D_0 * pow2 j
    start (if j > 0 then digit g_N g_D_0 quotient g_R j)
    variant j
    after div_is g_N g_D_0 quotient g_R

fn div_uldiv
  file lib/mes/div.c
  function __mesabi_uldiv
  params a b remainder
  uses div.Div
  requires b <> 0
  requires remainder = 0 \/ 0 < remainder /\ v64[remainder]
  writes m64 v64
  ensures[quotient] result = div a b
  ensures[remainder] remainder <> 0 -> m64 = set (old m64) remainder (cast_s64 (mod a b))
  ensures[frame] v64 = old v64 /\ forall a. (old v64)[a] -> a <> remainder -> m64[a] = (old m64)[a]

fn __mesabi_ldiv
  file lib/mes/div.c
  params a b result_p
  callas __mesabi_uldiv div_uldiv
  opt wrap
  uses div.Div
  requires b <> 0
  requires 0 < result_p /\ v64[result_p] /\ v64[result_p + 8]
  writes m64 v64
  ensures[quotient] m64[result_p] = cast_s64 (tquot a b)
  ensures[remainder] m64[result_p + 8] = trem a b
  ensures[frame] v64 = old v64 /\ forall p. (old v64)[p] -> p <> result_p -> p <> result_p + 8 -> m64[p] = (old m64)[p]

fn __mesabi_idiv
  file lib/mes/div.c
  params a b
  uses div.Div
  requires b <> 0
  writes m64 v64
  ensures[quotient] result = cast_s64 (tquot a b)
  ensures[frame] v64 = old v64 /\ forall p. (old v64)[p] -> m64[p] = (old m64)[p]

fn __mesabi_imod
  file lib/mes/div.c
  params a b
  uses div.Div
  requires b <> 0
  writes m64 v64
  ensures[remainder] result = trem a b
  ensures[frame] v64 = old v64 /\ forall p. (old v64)[p] -> m64[p] = (old m64)[p]

fn __mesabi_udiv
  file lib/mes/div.c
  params a b
  callas __mesabi_uldiv div_uldiv
  uses div.Div
  requires b <> 0
  writes m64 v64
  ensures[quotient] result = div a b
  ensures[frame] v64 = old v64 /\ forall p. (old v64)[p] -> m64[p] = (old m64)[p]

fn __mesabi_umod
  file lib/mes/div.c
  params a b
  callas __mesabi_uldiv div_uldiv
  uses div.Div
  requires b <> 0
  writes m64 v64
  ensures[remainder] result = mod a b
  ensures[frame] v64 = old v64 /\ forall p. (old v64)[p] -> m64[p] = (old m64)[p]

# the compiler run-time's own entry points
extern __mes_debug
  params
  ret int
  uses mem.Mem
  reads errno
  writes -

fn __divdi3
  file lib/libtcc1.c
  defines HAVE_LONG_LONG=1
  params a b
  uses div.Div
  requires b <> 0 /\ not (a = -9223372036854775808 /\ b = -1)
  writes stub
  ensures[quotient] result = tquot a b

fn __moddi3
  file lib/libtcc1.c
  defines HAVE_LONG_LONG=1
  params a b
  uses div.Div
  requires b <> 0 /\ not (a = -9223372036854775808 /\ b = -1)
  writes stub
  ensures[remainder] result = trem a b

fn __udivdi3
  file lib/libtcc1.c
  defines HAVE_LONG_LONG=1
  params a b
  uses div.Div
  writes stub
  ensures[quotient] b <> 0 -> result = div a b
  ensures[zero] b = 0 -> result = 0

fn __umoddi3
  file lib/libtcc1.c
  defines HAVE_LONG_LONG=1
  params a b
  uses div.Div
  requires b <> 0
  writes stub
  ensures[remainder] result = mod a b
