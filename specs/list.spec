# ---------------------------------------------------------------- lists
extern cstring_to_symbol
  file src/string.c
  params s
  requires arena vs v8 g_cells g_free g_ARENA_SIZE
  reads g_cells g_ARENA_SIZE vs v8
  uses scm.Scm
  writes g_free f_type f_car f_cdr m8
  raises Full: true
  raises Stop: true
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  note used only to build the argument of error ()

macro LIST
  uses scm.Scm scm.List
  ghost n: int
  requires[list] 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free %1 n
  requires[valid] arena vs v8 g_cells g_free g_ARENA_SIZE
  reads cell_nil g_cells g_free g_ARENA_SIZE vs v8
endmacro

fn car
  file src/core.c
  params x
  @ARENA
  requires vs[x]
  writes g_free f_type f_car f_cdr
  reads cell_symbol_not_a_pair cell_symbol_car
  ensures[pair] (old f_type)[x] = tPAIR
  ensures[car] result = (old f_car)[x]
  ensures[unchanged] f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ g_free = old g_free
  raises[only-for-no-pair] Stop: (old f_type)[x] <> tPAIR
  raises[only-for-no-pair] Full: (old f_type)[x] <> tPAIR
  @STOPKEPT

fn cdr
  file src/core.c
  params x
  @ARENA
  requires vs[x]
  writes g_free f_type f_car f_cdr
  reads cell_symbol_not_a_pair cell_symbol_cdr
  ensures[pair] (old f_type)[x] = tPAIR
  ensures[cdr] result = (old f_cdr)[x]
  ensures[unchanged] f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ g_free = old g_free
  raises[only-for-no-pair] Stop: (old f_type)[x] <> tPAIR
  raises[only-for-no-pair] Full: (old f_type)[x] <> tPAIR
  @STOPKEPT

fn set_car_x
  file src/eval-apply.c
  params x e
  @ARENA
  requires vs[x]
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_not_a_pair
  ensures[pair] (old f_type)[x] = tPAIR
  ensures[only-the-car] f_type = old f_type /\ f_car = (old f_car)[x <- e] /\ f_cdr = old f_cdr /\ g_free = old g_free /\ m8 = old m8
  ensures result = cell_unspecified
  raises[only-for-no-pair] Stop: (old f_type)[x] <> tPAIR
  raises[only-for-no-pair] Full: (old f_type)[x] <> tPAIR

fn set_cdr_x
  file src/eval-apply.c
  params x e
  @ARENA
  requires vs[x]
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_not_a_pair
  ensures[pair] (old f_type)[x] = tPAIR
  ensures[only-the-cdr] f_type = old f_type /\ f_car = old f_car /\ f_cdr = (old f_cdr)[x <- e] /\ g_free = old g_free /\ m8 = old m8
  ensures result = cell_unspecified
  raises[only-for-no-pair] Stop: (old f_type)[x] <> tPAIR
  raises[only-for-no-pair] Full: (old f_type)[x] <> tPAIR

fn list
  file src/core.c
  params x
  writes -
  ensures result = x

fn null_p
  file src/core.c
  params x
  uses scm.Scm
  writes -
  ensures result = if x = cell_nil then cell_t else cell_f

fn pair_p
  file src/lib.c
  params x
  uses scm.Scm
  requires vs[x]
  writes -
  ensures result = if f_type[x] = tPAIR then cell_t else cell_f

fn values
  file src/core.c
  params x
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tVALUES] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- x]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn acons
  file src/core.c
  params key value alist
  @ALLOCS
  ensures[fresh] g_free = old g_free + 48
  ensures[contents] f_type = (old f_type)[old g_free <- tPAIR][old g_free + 24 <- tPAIR]
  ensures[contents] f_car = (old f_car)[old g_free <- key][old g_free + 24 <- old g_free] /\ f_cdr = (old f_cdr)[old g_free <- value][old g_free + 24 <- alist]
  ensures[result] result = old g_free + 24
  raises[room] Full: old g_free + 48 > g_cells + 24 * g_ARENA_SIZE

fn length__
  file src/core.c
  params x
  uses scm.Scm scm.List
  ghost len: int
  requires[pairs] 0 <= len <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free x len
  requires[end] nth f_cdr x len = cell_nil \/ nth f_cdr x len <> cell_nil /\ vs[nth f_cdr x len] /\ f_type[nth f_cdr x len] <> tPAIR
  requires[valid] arena vs v8 g_cells g_free g_ARENA_SIZE
  reads cell_nil g_cells g_free g_ARENA_SIZE vs v8
  writes -
  ensures[length] result = if nth f_cdr x len = cell_nil then len else -1
  loop
    inv[position] 0 <= n <= len /\ x = nth f_cdr x_0 n
    start nth_step f_cdr x_0 n
    variant len - n

fn length
  file src/core.c
  params x
  uses scm.Scm scm.List
  @ALLOCS
  ghost n: int
  requires[pairs] 0 <= n <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free x n
  requires[end] nth f_cdr x n = cell_nil \/ nth f_cdr x n <> cell_nil /\ vs[nth f_cdr x n] /\ f_type[nth f_cdr x n] <> tPAIR
  ghostarg[length__] n
  @ONECELL
  ensures[length] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- if nth (old f_cdr) x n = cell_nil then n else -1]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn last_pair
  file src/lib.c
  params x
  @LIST x
  writes -
  ensures[last] result = if n = 0 then x else nth f_cdr x (n - 1)
  loop
    inv[position] 0 <= k <= n /\ x = nth f_cdr x_0 k /\ (n > 0 -> k < n)
    start nth_step f_cdr x_0 k
    end k <- k + 1
    variant n - k
  pre let ghost ref k = 0 in

# ---------------------------------------------------------------- equality
extern diag_itoa
  params x
  ret char*
  uses scm.Scm
  writes -
  ensures result > 0
  note the number in a diagnostic message
extern write_error_
  file src/display.c
  params x
  writes -
  note diagnostic output before an error is reported

fn string_equal_p
  file src/string.c
  params a b
  uses mem.Str scm.Scm scm.Strg
  callas itoa diag_itoa
  requires vs[a] /\ vs[b] /\ cell_t <> cell_f
  requires[well-formed] (f_type[a] = tSTRING \/ f_type[a] = tKEYWORD) -> wstr f_car f_cdr v8 a
  requires[well-formed] (f_type[b] = tSTRING \/ f_type[b] = tKEYWORD) -> wstr f_car f_cdr v8 b
  writes -
  reads m8 f_type f_car f_cdr
  ensures[checked] f_type[a] = f_type[b] /\ (f_type[a] = tSTRING \/ f_type[a] = tKEYWORD)
  ensures[equal] result = (if str_eq f_car f_cdr m8 a b then cell_t else cell_f)
  raises[only-for-wrong-types] Stop: not (f_type[a] = f_type[b] /\ (f_type[a] = tSTRING \/ f_type[a] = tKEYWORD))

fn eq_p
  file src/core.c
  params x y
  uses mem.Str scm.Scm scm.Strg
  requires vs[x] /\ vs[y] /\ cell_t <> cell_f /\ 0 <= f_type[x] <= 17
  requires[well-formed] f_type[x] = tKEYWORD -> wstr f_car f_cdr v8 x
  requires[well-formed] f_type[y] = tKEYWORD -> wstr f_car f_cdr v8 y
  writes -
  ensures[eq] result = (if eqp f_type f_car f_cdr m8 x y then cell_t else cell_f)
  raises[never] Stop: false

# ---------------------------------------------------------------- construction and reversal
fn reverse_x_
  file src/core.c
  params x t
  uses scm.Scm scm.List
  @ARENA
  ghost n: int
  requires[list] vs[x] /\ (f_type[x] = tPAIR \/ x = cell_nil -> 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free x n)
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_not_a_pair
  ensures[checked] x = cell_nil \/ (old f_type)[x] = tPAIR
  ensures[reversed] forall k. 0 <= k < n -> nth f_cdr result k = nth (old f_cdr) x (n - 1 - k)
  ensures[tail] nth f_cdr result n = t
  ensures[only-the-links] f_type = old f_type /\ f_car = old f_car /\ g_free = old g_free /\ m8 = old m8 /\ forall a. (forall k. 0 <= k < n -> a <> nth (old f_cdr) x k) -> f_cdr[a] = (old f_cdr)[a]
  raises[only-for-no-list] Stop: x <> cell_nil /\ (old f_type)[x] <> tPAIR
  raises[only-for-no-list] Full: x <> cell_nil /\ (old f_type)[x] <> tPAIR
  pre let ghost ref i = 0 in
  loop
    inv[position] 0 <= i <= n /\ x = nth f_cdr_in x_0 i /\ f_type = f_type_in /\ f_car = f_car_in /\ g_free = g_free_in /\ m8 = m8_in
    inv[list] lst f_type_in f_cdr_in cell_nil g_cells g_free_in x_0 n
    inv[reversed] forall k. 0 <= k < i -> nth f_cdr r k = nth f_cdr_in x_0 (i - 1 - k)
    inv[tail] nth f_cdr r i = t_0
    inv[not-yet] forall k. i <= k < n -> f_cdr[nth f_cdr_in x_0 k] = f_cdr_in[nth f_cdr_in x_0 k]
    inv[only-the-links] forall a. (forall k. 0 <= k < n -> a <> nth f_cdr_in x_0 k) -> f_cdr[a] = f_cdr_in[a]
    start nth_step f_cdr_in x_0 i
    start if i < n then nth_distinct f_cdr_in cell_nil x_0 n i
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { r at L0 }) r i
    end i <- i + 1
    variant n - i

fn append_reverse
  file src/core.c
  params x y
  uses scm.Scm scm.List
  @ARENA
  ghost n: int
  requires[list] vs[x] /\ (f_type[x] = tPAIR \/ x = cell_nil -> 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free x n)
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_not_a_pair
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[checked] x = cell_nil \/ (old f_type)[x] = tPAIR
  ensures[fresh] g_free = old g_free + 24 * n
  ensures[reversed] forall k. 0 <= k < n -> old g_free <= nth f_cdr result k < g_free /\ f_type[nth f_cdr result k] = tPAIR /\ f_car[nth f_cdr result k] = (old f_car)[nth (old f_cdr) x (n - 1 - k)]
  ensures[tail] nth f_cdr result n = y
  @KEPT
  ensures[unchanged] m8 = old m8
  raises[only-for-no-list] Stop: x <> cell_nil /\ (old f_type)[x] <> tPAIR
  raises Full: true
  pre assert { nth f_cdr x 0 = x }
  pre let ghost ref i = 0 in
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= n /\ x = nth f_cdr_in x_0 i /\ m8 = m8_in /\ g_free = g_free_in + 24 * i
    inv[list] lst f_type_in f_cdr_in cell_nil g_cells g_free_in x_0 n
    inv[reversed] forall k. 0 <= k < i -> g_free_in <= nth f_cdr y k < g_free
    inv[reversed] forall k. 0 <= k < i -> f_type[nth f_cdr y k] = tPAIR
    inv[reversed] forall k. 0 <= k < i -> f_car[nth f_cdr y k] = f_car_in[nth f_cdr_in x_0 (i - 1 - k)]
    inv[tail] nth f_cdr y i = y_0
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    start nth_step f_cdr_in x_0 i
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { y at L0 }) y i
    end i <- i + 1
    variant n - i

fn append2
  file src/core.c
  params x y
  uses scm.Scm scm.List
  @ARENA
  ghost n: int
  requires[list] vs[x] /\ (f_type[x] = tPAIR \/ x = cell_nil -> 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free x n)
  requires obj cell_nil g_cells g_free
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_not_a_pair
  ghostarg[reverse_x_] n
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[checked] x = cell_nil \/ (old f_type)[x] = tPAIR
  ensures[fresh] g_free = old g_free + 24 * n
  ensures[appended] forall k. 0 <= k < n -> old g_free <= nth f_cdr result k < g_free /\ f_type[nth f_cdr result k] = tPAIR /\ f_car[nth f_cdr result k] = (old f_car)[nth (old f_cdr) x k]
  ensures[tail] nth f_cdr result n = y
  @KEPT
  ensures[unchanged] m8 = old m8
  raises[only-for-no-list] Stop: x <> cell_nil /\ (old f_type)[x] <> tPAIR
  raises Full: true
  pre assert { nth f_cdr x 0 = x }
  pre let ghost ref i = 0 in
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= n /\ x = nth f_cdr_in x_0 i /\ m8 = m8_in /\ g_free = g_free_in + 24 * i
    inv[list] lst f_type_in f_cdr_in cell_nil g_cells g_free_in x_0 n
    inv[copied] forall k. 0 <= k < i -> nth f_cdr r k = g_free_in + 24 * (i - 1 - k)
    inv[copied] forall k. 0 <= k < i -> f_type[nth f_cdr r k] = tPAIR /\ f_car[nth f_cdr r k] = f_car_in[nth f_cdr_in x_0 (i - 1 - k)]
    inv[tail] nth f_cdr r i = cell_nil
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    start nth_step f_cdr_in x_0 i
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { r at L0 }) r i
    end i <- i + 1
    after assert { i = n /\ nth f_cdr r 0 = r }
    after assert { forall k. 0 <= k < n -> f_type[nth f_cdr r k] = tPAIR }
    after assert { lst f_type f_cdr cell_nil g_cells g_free r n }
    variant n - i

# ---------------------------------------------------------------- search
macro KEYS
  requires vs[x] /\ 0 <= f_type[x] <= 17 /\ cell_t <> cell_f /\ f_type[cell_f] <> tPAIR
  requires[well-formed] f_type[x] = tKEYWORD -> wstr f_car f_cdr v8 x
endmacro
fn memq
  file src/lib.c
  params x a
  uses mem.Str scm.Strg
  @LIST a
  @KEYS
  requires forall k. 0 <= k < n -> vs[f_car[nth f_cdr a k]] /\ 0 <= f_type[f_car[nth f_cdr a k]] <= 17 /\ (f_type[f_car[nth f_cdr a k]] = tKEYWORD -> wstr f_car f_cdr v8 f_car[nth f_cdr a k])
  writes -
  ensures[found] result <> cell_f -> exists k. 0 <= k < n /\ result = nth f_cdr a k /\ eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a k] /\ forall j. 0 <= j < k -> not eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a j]
  ensures[not-found] result = cell_f -> forall k. 0 <= k < n -> not eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a k]
  raises[never] Stop: false
  pre let ghost ref i = 0 in
  loop
    inv[position] 0 <= i <= n /\ a = nth f_cdr a_0 i
    inv[not-yet] forall j. 0 <= j < i -> not eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a_0 j]
    start nth_step f_cdr a_0 i
    end i <- i + 1
    variant n - i
  loop
    inv[position] 0 <= i <= n /\ a = nth f_cdr a_0 i
    inv[not-yet] forall j. 0 <= j < i -> not eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a_0 j]
    start nth_step f_cdr a_0 i
    end i <- i + 1
    variant n - i
  loop
    inv[position] 0 <= i <= n /\ a = nth f_cdr a_0 i
    inv[not-yet] forall j. 0 <= j < i -> not eqp f_type f_car f_cdr m8 x f_car[nth f_cdr a_0 j]
    start nth_step f_cdr a_0 i
    end i <- i + 1
    variant n - i

macro ALIST
  @LIST a
  requires forall k. 0 <= k < n -> vs[f_car[nth f_cdr a k]] /\ f_car[nth f_cdr a k] <> cell_f
endmacro
# the first entry for which %1 holds of the key, or #f
macro FIRST
  ensures[found] result <> cell_f -> exists k. 0 <= k < n /\ result = f_car[nth f_cdr a k] /\ (%1 f_car[f_car[nth f_cdr a k]]) /\ forall j. 0 <= j < k -> not (%1 f_car[f_car[nth f_cdr a j]])
  ensures[not-found] result = cell_f -> forall k. 0 <= k < n -> not (%1 f_car[f_car[nth f_cdr a k]])
endmacro
macro FIRSTLOOP
  loop
    inv[position] 0 <= i <= n /\ a = nth f_cdr a_0 i
    inv[not-yet] forall j. 0 <= j < i -> not (%1 f_car[f_car[nth f_cdr a_0 j]])
    start nth_step f_cdr a_0 i
    end i <- i + 1
    variant n - i
endmacro

fn assq
  file src/core.c
  params x a
  uses mem.Str scm.Strg
  uses scm.Scm scm.List
  ghost n: int
  requires[valid] arena vs v8 g_cells g_free g_ARENA_SIZE /\ vs[a]
  requires[list] f_type[a] = tPAIR -> 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free a n
  requires[alist] forall k. 0 <= k < n -> vs[f_car[nth f_cdr a k]] /\ f_car[nth f_cdr a k] <> cell_f
  reads cell_nil g_cells g_free g_ARENA_SIZE vs v8
  @KEYS
  requires forall k. 0 <= k < n -> vs[f_car[f_car[nth f_cdr a k]]] /\ 0 <= f_type[f_car[f_car[nth f_cdr a k]]] <= 17 /\ (f_type[f_car[f_car[nth f_cdr a k]]] = tKEYWORD -> wstr f_car f_cdr v8 f_car[f_car[nth f_cdr a k]])
  writes -
  ensures[found] result <> cell_f -> f_type[a] = tPAIR /\ exists k. 0 <= k < n /\ result = f_car[nth f_cdr a k] /\ eqp f_type f_car f_cdr m8 x f_car[f_car[nth f_cdr a k]] /\ forall j. 0 <= j < k -> not eqp f_type f_car f_cdr m8 x f_car[f_car[nth f_cdr a j]]
  ensures[not-found] result = cell_f -> f_type[a] = tPAIR -> forall k. 0 <= k < n -> not eqp f_type f_car f_cdr m8 x f_car[f_car[nth f_cdr a k]]
  raises[never] Stop: false
  pre let ghost ref i = 0 in
  @FIRSTLOOP eqp f_type f_car f_cdr m8 x;
  @FIRSTLOOP eqp f_type f_car f_cdr m8 x;
  @FIRSTLOOP eqp f_type f_car f_cdr m8 x;
  @FIRSTLOOP eqp f_type f_car f_cdr m8 x;

fn assoc_string
  file src/core.c
  params x a
  uses mem.Str scm.Strg
  @ALIST
  requires vs[x] /\ f_type[x] = tSTRING /\ wstr f_car f_cdr v8 x /\ cell_t <> cell_f
  requires forall k. 0 <= k < n -> vs[f_car[f_car[nth f_cdr a k]]] /\ (f_type[f_car[f_car[nth f_cdr a k]]] = tSTRING -> wstr f_car f_cdr v8 f_car[f_car[nth f_cdr a k]])
  writes -
  @FIRST same_string f_type f_car f_cdr m8 x;
  raises[never] Stop: false
  pre let ghost ref i = 0 in
  @FIRSTLOOP same_string f_type f_car f_cdr m8 x;

fn equal2_p
  file src/lib.c
  params a b
  uses mem.Str scm.Scm scm.Strg scm.Equal
  ghost g: map int bool
  ghost rank: map int int
  ghostarg[equal2_p] g
  ghostarg[equal2_p] rank
  requires[finite-values] values_ vs v8 f_type f_car f_cdr g rank /\ g[a] /\ g[b]
  requires cell_t <> cell_f
  reads m8 f_type f_car f_cdr v8 vs
  writes -
  variant rank[a]
  ensures[equal] result = (if equalp f_type f_car f_cdr m8 a b then cell_t else cell_f)
  raises[never] Stop: false
  loop
    inv[values] g[a] /\ g[b] /\ rank[a] <= rank[a_0]
    inv[same-question] equalp f_type f_car f_cdr m8 a b <-> equalp f_type f_car f_cdr m8 a_0 b_0
    variant rank[a]
  loop
    inv[position] 0 <= i <= f_car[a]
    inv[equal-so-far] forall k. 0 <= k < i -> equalp f_type f_car f_cdr m8 (held f_type f_car (f_cdr[a] + 24 * k)) (held f_type f_car (f_cdr[b] + 24 * k))
    variant f_car[a] - i

fn xassq
  file src/lib.c
  params x a
  uses scm.Scm
  @ALIST
  requires cell_t <> cell_f
  writes -
  extra predicate holds (cdr: map int int) (x e: int)
  extra axiom holds_def: forall cdr x e [holds cdr x e]. holds cdr x e <-> x = cdr[e]
  ensures[found] result <> cell_f -> exists k. 0 <= k < n /\ result = f_car[nth f_cdr a k] /\ holds f_cdr x result /\ forall j. 0 <= j < k -> not holds f_cdr x f_car[nth f_cdr a j]
  ensures[not-found] result = cell_f -> forall k. 0 <= k < n -> not holds f_cdr x f_car[nth f_cdr a k]
  pre let ghost ref i = 0 in
  loop
    inv[position] 0 <= i <= n /\ a = nth f_cdr a_0 i
    inv[not-yet] forall j. 0 <= j < i -> not holds f_cdr x f_car[nth f_cdr a_0 j]
    start nth_step f_cdr a_0 i
    end i <- i + 1
    variant n - i

fn assoc
  file src/core.c
  params x a
  uses mem.Str scm.Strg scm.Equal
  @ALIST
  ghost g: map int bool
  ghost rank: map int int
  ghostarg[equal2_p] g
  ghostarg[equal2_p] rank
  ghostarg[assoc_string] n
  requires vs[x]
  requires[finite-values] f_type[x] <> tSTRING -> values_ vs v8 f_type f_car f_cdr g rank /\ g[x] /\ forall k. 0 <= k < n -> g[f_car[f_car[nth f_cdr a k]]]
  requires[well-formed] f_type[x] = tSTRING -> wstr f_car f_cdr v8 x /\ forall k. 0 <= k < n -> vs[f_car[f_car[nth f_cdr a k]]] /\ (f_type[f_car[f_car[nth f_cdr a k]]] = tSTRING -> wstr f_car f_cdr v8 f_car[f_car[nth f_cdr a k]])
  requires cell_t <> cell_f
  reads m8 f_type f_car f_cdr v8 vs
  writes -
  @FIRST equalp f_type f_car f_cdr m8 x;
  raises[never] Stop: false
  pre let ghost ref i = 0 in
  @FIRSTLOOP equalp f_type f_car f_cdr m8 x;
