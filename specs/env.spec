# ---------------------------------------------------------------- L10 the environment
fn getenv
  file lib/posix/getenv.c
  params s
  ghost n: int
  uses mem.Str env.Env
  requires[state] env_ok m8 m64 v8 v64 environ n
  requires[valid-name] vstr m8 v8 s /\ slen m8 s <= 2147483646
  writes -
  ensures[lookup] result = value m8 m64 environ n s
  pre let ghost ref k = 0 in
  loop
    inv[position] 0 <= k <= n /\ p = environ + 8 * k /\ length = slen m8 s
    inv[none-before] none_before m8 m64 environ k s
    start slot v64 environ n k; assert { ent m64 environ k = m64[p] }
    end none_more m8 m64 environ k s; k <- k + 1
    variant n - k
  hook[after:strncmp#0] assert { $3 = slen m8 $1 }; named_test m8 v8 $2 $1 $r
  post first_is m8 m64 environ n s k

fn unsetenv
  file lib/posix/unsetenv.c
  params name
  ghost n: int
  uses mem.Str env.Env
  requires[state] env_ok m8 m64 v8 v64 environ n
  requires[valid-name] vstr m8 v8 name /\ slen m8 name <= 2147483646 /\ plain m8 name
  writes m64
  ensures[gone] exists n'. 0 <= n' <= n /\ env_ok m8 m64 v8 v64 environ n' /\ value m8 m64 environ n' name = 0 /\ others_kept m8 m8 (old m64) m64 v8 environ environ n n' name
  ensures[frame] forall a. not (environ <= a <= environ + 8 * n) -> m64[a] = (old m64)[a]
  pre let ghost ref k = 0 in let ghost ref c = n in let ghost ref w = m64 in let ghost ref i = 0 in let ghost ref before = m64 in
  loop
    inv[position] 0 <= k <= c <= n /\ p = environ + 8 * k /\ length = slen m8 name
    inv[state] env_ok m8 m64 v8 v64 environ c
    inv[none-before] none_before m8 m64 environ k name
    inv[others] others_kept m8 m8 m64_in m64 v8 environ environ n c name
    inv[frame] forall a. not (environ <= a <= environ + 8 * n) -> m64[a] = m64_in[a]
    start slot v64 environ c k; assert { ent m64 environ k = m64[p] }; w <- m64; i <- k - 1; ghost (if k < c then slot v64 environ c (k + 1))
    variant c - k
    end (if i >= k then (removed m8 w m64 v8 v64 environ c name k; c <- c - 1) else (none_more m8 m64 environ k name; k <- k + 1))
    after first_is m8 m64 environ c name c
  loop
    inv[position] k <= i < c /\ q = environ + 8 * i
    inv[moved] moved w m64 environ k i
    inv[frame] forall a. not (environ <= a <= environ + 8 * n) -> m64[a] = m64_in[a]
    start slot v64 environ c i; assert { ent m64 environ i = m64[q] }; before <- m64; ghost (if i + 1 < c then (slot v64 environ c (i + 1); slot v64 environ c (i + 2)))
    end move_one w before m64 environ k i; i <- i + 1
    loop-pre move_one w w m64 environ k (k - 1); i <- k
    variant c - i
  hook[after:strncmp#0] assert { $3 = slen m8 $1 }; named_test m8 v8 $2 $1 $r

fn setenv
  file lib/posix/setenv.c
  params s v overwrite_p
  ghost n: int
  uses mem.Str sys.Sys heap.Heap env.Env
  requires[state] env_ok m8 m64 v8 v64 environ n /\ n <= 2147483645 /\ heap_ok u__brk kbrk v8
  requires[valid-name] vstr m8 v8 s /\ plain m8 s
  requires[valid-value] vstr m8 v8 v /\ slen m8 s + slen m8 v <= 2147483640
  writes m8 m64 environ u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[result] result = 0 \/ result = -1
  ensures[refused] result <> 0 -> environ = old environ /\ forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[kept-value] overwrite_p = 0 -> value (old m8) (old m64) (old environ) n s <> 0 -> result = 0 /\ environ = old environ /\ m64 = old m64 /\ m8 = old m8
  ensures[replaced] result = 0 -> overwrite_p <> 0 -> value (old m8) (old m64) (old environ) n s <> 0 -> was_set (old m8) m8 (old m64) m64 (old v8) v8 v64 (old environ) environ n n s v
  ensures[added] result = 0 -> value (old m8) (old m64) (old environ) n s = 0 -> was_set (old m8) m8 (old m64) m64 (old v8) v8 v64 (old environ) environ n (n + 1) s v
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a] \/ (old environ <= a < old environ + 8 * n /\ environ = old environ)
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  pre let ghost ref k = 0 in let ghost ref i = 0 in
  loop
    inv[position] 0 <= k <= n /\ p = environ + 8 * k /\ length = slen m8 s /\ count = k
    inv[none-before] none_before m8 m64 environ k s
    start slot v64 environ n k; assert { ent m64 environ k = m64[p] }
    end none_more m8 m64 environ k s; k <- k + 1
    variant n - k
  loop
    inv[position] 0 <= i <= n /\ k = n /\ p = environ_in + 8 * i /\ e = e0 + 8 * i /\ environ = e0
    inv[copied] copied m64_in m64 environ_in e0 i
    inv[frame] forall a. not (e0 <= a <= e0 + 8 * (n + 1)) -> m64[a] = m64_in[a]
    start slot v64 environ_in n i; slot v64 e0 (n + 1) i; apart1 v64_in e0 n environ_in i; assert { ent m64_in environ_in i = m64[p] }; before <- m64
    end copy_one m64_in before m64 environ_in e0 i (ent m64_in environ_in i); i <- i + 1
    after assert { i = n /\ p = environ_in + 8 * n /\ before = m64 }; slot v64 e0 (n + 1) (n + 1)
    variant n - i
  hook[after:malloc#1] e0 <- $r; assert { $r <> 0 -> $1 = 8 * (n + 2) }; (if $r <> 0 then (assert { forall a. $r <= a <= $r + 8 * (n + 1) -> not v64_in[a] }; slots_new v64 $r (n + 1))); slots_kept v64_in v64 environ_in n; v2 <- v64
  hook[after:strncmp#0] assert { $3 = slen m8 $1 }; named_test m8 v8 $2 $1 $r
  hook[after:malloc#0] entry_ <- $r; v1 <- v8; assert { m64[p] = 0 <-> k = n }
  hook[before:strcpy#0] apart v8_in $1 (slen m8_in s + 1) s (slen m8_in s + 1)
  hook[after:strcpy#0] m1 <- m8; assert { forall a. v8_in[a] -> m1[a] = m8_in[a] }; str_kept m8_in m1 v8_in v
  hook[before:strcpy#1] assert { slen m8 $2 = 1 }
  hook[after:strcpy#1] m2 <- m8; assert { forall a. v8_in[a] -> m2[a] = m8_in[a] }; str_kept m8_in m2 v8_in v
  hook[before:strcpy#2] apart v8_in $1 (slen m8_in v + 1) v (slen m8_in v + 1)
  hook[after:strcpy#2] assert { forall a. v8_in[a] -> m8[a] = m8_in[a] }; joined m8_in m1 m2 m8 v8_in v8 entry_ s v; slots_kept v64_in v64 environ_in n
  pre let ghost ref entry_ = 0 in let ghost ref m1 = m8 in let ghost ref m2 = m8 in let ghost ref v1 = v8 in
  pre let ghost ref e0 = environ in let ghost ref before = m64 in let ghost ref v2 = v64 in
  post (if result_ = 0 && (overwrite_p <> 0 || k = n) then (if k < n then finish_replace m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ_in n k s v entry_ else finish_append m8_in m8 m64_in before m64 v8_in v8 v64_in v64 environ_in environ n s v entry_)); first_is m8_in m64_in environ_in n s k; assert { k < n -> str m8_in s /\ vstr m8_in v8_in (ent m64_in environ_in k) }; assert { value m8_in m64_in environ_in n s = 0 <-> k = n }
