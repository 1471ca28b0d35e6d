# ---------------------------------------------------------------- L09 allocation
fn brk
  file lib/linux/brk.c
  params addr
  uses sys.Sys heap.Heap
  requires addr = 0 \/ kbrk <= addr
  requires hs <= kbrk <= 140737488355328
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[result] result = kbrk /\ hs <= kbrk <= 140737488355328
  ensures[moved-or-not] kbrk = addr \/ (kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64)
  ensures kbrk = addr -> forall a. v8[a] <-> ((old v8)[a] \/ old kbrk <= a < kbrk)
  ensures kbrk = addr -> forall a. v64[a] <-> ((old v64)[a] \/ (old kbrk <= a /\ a + 8 <= kbrk /\ mod a 8 = 0))
  ensures kbrk = addr -> forall a. v32[a] <-> ((old v32)[a] \/ (old kbrk <= a /\ a + 4 <= kbrk /\ mod a 4 = 0))
  ensures forall a. old kbrk <= a < kbrk -> not (old v8)[a] /\ not (old v32)[a] /\ not (old v64)[a] /\ m8[a] = 0 /\ m32[a] = 0 /\ m64[a] = 0
  hook[after:_sys_call1#0] kernel_brk ()

fn malloc
  file lib/linux/malloc.c
  opt wrapptr
  params size
  uses mem.Str sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  writes u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[aligned] result <> 0 -> mod result 8 = 0
  ensures[large-enough] result <> 0 -> hs <= result /\ result + size <= kbrk /\ range v8 result size
  ensures[above-all-others] result <> 0 -> old kbrk <= result < old kbrk + 8 /\ result + size = kbrk
  ensures[disjoint] result <> 0 -> forall a. result <= a < result + size -> not (old v8)[a] /\ not (old v32)[a] /\ not (old v64)[a]
  ensures[fresh-zero] result <> 0 -> forall a. result <= a < result + size -> m8[a] = 0 /\ m32[a] = 0 /\ m64[a] = 0
  ensures[refused] result = 0 -> kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64
  ensures[words] result <> 0 -> forall a. result <= a /\ a + 8 <= result + size -> mod a 8 = 0 -> v64[a]
  ensures[words] result <> 0 -> forall a. result <= a /\ a + 4 <= result + size -> mod a 4 = 0 -> v32[a]
  ensures[kept] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[grows-into-free-memory] old kbrk <= kbrk /\ forall a. (old v8)[a] -> not (old kbrk <= a < kbrk)
  ensures[nothing-else] forall a. v8[a] -> (old v8)[a] \/ old kbrk <= a < kbrk
  ensures[nothing-else] forall a. v64[a] -> (old v64)[a] \/ old kbrk <= a < kbrk

fn calloc
  file lib/stdlib/calloc.c
  params nmemb size
  uses mem.Str sys.Sys heap.Heap
  requires[state] heap_ok u__brk kbrk v8
  writes m8 u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] m32 = old m32 /\ m64 = old m64
  ensures[kept] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[refused] result = 0 -> kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64
  ensures[aligned] result <> 0 -> mod result 8 = 0
  ensures[above-all-others] result <> 0 -> old kbrk <= result < old kbrk + 8
  ensures[large-enough] result <> 0 -> hs <= result /\ result + nmemb * size <= kbrk /\ range v8 result (nmemb * size)
  ensures[disjoint] result <> 0 -> forall a. result <= a < result + nmemb * size -> not (old v8)[a]
  ensures[zero] result <> 0 -> forall a. result <= a < result + nmemb * size -> m8[a] = 0

fn realloc
  file lib/stdlib/realloc.c
  params ptr size
  ghost old_size: int
  uses mem.Str sys.Sys heap.Heap
  requires ptr = 0 \/ (hs <= ptr /\ 0 <= old_size /\ ptr + old_size <= kbrk)
  requires[state] heap_ok u__brk kbrk v8
  writes m8 u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] m32 = old m32 /\ m64 = old m64
  ensures[kept] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[refused] result = 0 -> kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64
  ensures[aligned] result <> 0 -> mod result 8 = 0
  ensures[above-all-others] result <> 0 -> old kbrk <= result < old kbrk + 8
  ensures[large-enough] result <> 0 -> hs <= result /\ result + size <= kbrk /\ range v8 result size
  ensures[disjoint] result <> 0 -> forall a. result <= a < result + size -> not (old v8)[a]
  ensures[contents] result <> 0 -> ptr <> 0 -> forall a. result <= a < result + size -> a - result < old_size -> m8[a] = (old m8)[ptr + (a - result)]

fn free
  file lib/stdlib/free.c
  params ptr
  writes -

fn strdup
  file lib/string/strdup.c
  params s
  uses mem.Str sys.Sys heap.Heap
  requires[valid-string] vstr m8 v8 s
  requires slen m8 s <= 2147483646
  requires[state] heap_ok u__brk kbrk v8
  writes m8 u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] m32 = old m32 /\ m64 = old m64
  ensures[kept] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[refused] result = 0 -> kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64
  ensures[aligned] result <> 0 -> mod result 8 = 0
  ensures[above-all-others] result <> 0 -> old kbrk <= result < old kbrk + 8
  ensures[copy] result <> 0 -> str m8 result /\ slen m8 result = slen (old m8) s /\ range v8 result (slen m8 result + 1)
  ensures[copy] result <> 0 -> forall a. result <= a <= result + slen m8 result -> m8[a] = (old m8)[s + (a - result)]
  ensures[disjoint] result <> 0 -> forall a. result <= a <= result + slen m8 result -> not (old v8)[a]
  hook[before:memcpy#0] assert { v8_in[s] /\ not v8_in[$1] }; assert { disjoint $1 $3 s $3 }
  post if result_ <> 0 then (assert { m8[result_ + slen m8_in s] = m8_in[s + slen m8_in s] }; assert { forall a. result_ <= a < result_ + slen m8_in s -> m8[a] = m8_in[s + (a - result_)] }; slen_is m8 result_ (slen m8_in s))
