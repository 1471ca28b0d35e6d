# ---------------------------------------------------------------- vectors and records
macro SAME
  ensures[unchanged] f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ g_free = old g_free
endmacro
macro KEPT
  ensures[existing-kept] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]
endmacro
macro STOPKEPT
  raises[nothing-changed-before-the-error] Stop: forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]
endmacro

extern eputs
  file lib/mes/eputs.c
  params s
  writes -
fn assert_number
  file src/math.c
  params name x
  uses scm.Scm
  requires vs[x]
  reads cell_symbol_not_a_number
  writes -
  ensures[number] f_type[x] = tNUMBER
  raises[only-then] Stop: f_type[x] <> tNUMBER

fn copy_cell
  file src/gc.c
  params to_ from_
  requires vs[to_] /\ vs[from_]
  writes f_type f_car f_cdr
  ensures[copied] f_type = (old f_type)[to_ <- (old f_type)[from_]] /\ f_car = (old f_car)[to_ <- (old f_car)[from_]] /\ f_cdr = (old f_cdr)[to_ <- (old f_cdr)[from_]]

fn vector_entry
  file src/vector.c
  params x
  uses scm.Vec
  @ALLOCS
  requires vs[x]
  ensures[immediate] imm (old f_type)[x] -> result = x /\ g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr
  ensures[reference] not imm (old f_type)[x] -> result = old g_free /\ g_free = old g_free + 24 /\ f_type = (old f_type)[result <- tREF] /\ f_car = (old f_car)[result <- x] /\ f_cdr = (old f_cdr)[result <- 0]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_vector_
  file src/vector.c
  params k e
  uses scm.Vec
  @ALLOCS
  requires obj e g_cells g_free
  requires k <= 1000000000000000
  ensures[fresh] result = old g_free /\ 0 <= k
  ensures[vector] f_type[result] = tVECTOR /\ f_car[result] = k /\ f_cdr[result] = result + 24 /\ result + 24 + 24 * k <= g_free
  ensures[filled] forall a. result + 24 <= a < result + 24 + 24 * k -> mod (a - result) 24 = 0 -> slot f_type f_car f_cdr a e
  @KEPT
  raises Full: true
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= k /\ x = g_free_in /\ v = x + 24 /\ v + 24 * k <= g_free /\ vs[x] /\ vs[e]
    inv[header] f_type[x] = tVECTOR /\ f_car[x] = k /\ f_cdr[x] = v
    inv[filled] forall a. v <= a < v + 24 * i -> mod (a - v) 24 = 0 -> slot f_type f_car f_cdr a e
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    variant k - i

fn make_vector
  file src/vector.c
  params x
  uses scm.Vec
  @ALLOCS
  requires vs[x] /\ obj f_car[x] g_cells g_free /\ vs[f_cdr[x]] /\ (f_cdr[x] <> cell_nil -> obj f_car[f_cdr[x]] g_cells g_free)
  requires obj cell_unspecified g_cells g_free
  requires f_cdr[f_car[x]] <= 1000000000000000
  reads cell_symbol_not_a_number
  ensures[fresh] result = old g_free
  ensures[length] (old f_type)[(old f_car)[x]] = tNUMBER /\ f_type[result] = tVECTOR /\ f_car[result] = (old f_cdr)[(old f_car)[x]]
  ensures[slots] f_cdr[result] = result + 24 /\ result + 24 + 24 * f_car[result] <= g_free
  ensures[filled] forall a. result + 24 <= a < result + 24 + 24 * f_car[result] -> mod (a - result) 24 = 0 ->
  |  slot f_type f_car f_cdr a (if (old f_cdr)[x] = cell_nil then cell_unspecified else (old f_car)[(old f_cdr)[x]])
  @KEPT
  raises Full: true
  raises[only-for-no-number] Stop: (old f_type)[(old f_car)[x]] <> tNUMBER
  @STOPKEPT

fn vector_length
  file src/vector.c
  params x
  uses scm.Vec
  @ALLOCS
  requires vs[x]
  ensures[vector] (old f_type)[x] = tVECTOR
  ensures[length] result = old g_free /\ f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- (old f_car)[x]]
  raises[only-for-no-vector] Stop: (old f_type)[x] <> tVECTOR
  raises Full: true

macro SLOTS
  requires vs[x] /\ x < g_free
  requires[well-formed] f_type[x] = %1 -> 0 <= f_car[x] <= 1000000000000000 /\ g_cells <= f_cdr[x] /\ f_cdr[x] + 24 * f_car[x] <= g_free
  requires[well-formed] f_type[x] = %1 -> forall a. f_cdr[x] <= a < f_cdr[x] + 24 * f_car[x] -> mod (a - f_cdr[x]) 24 = 0 -> vs[a] /\ chr f_type f_cdr a /\ (f_type[a] = tREF -> vs[f_car[a]] /\ 0 <= f_car[a] < g_free /\ chr f_type f_cdr f_car[a])
endmacro

fn vector_ref_
  file src/vector.c
  params x i
  uses scm.Vec
  @ALLOCS
  @SLOTS tVECTOR
  ensures[checked] (old f_type)[x] = tVECTOR /\ 0 <= i < (old f_car)[x]
  ensures[what-was-stored] reads_ f_type f_car f_cdr (old f_type) (old f_car) (old f_cdr) ((old f_cdr)[x] + 24 * i) result (old g_free)
  ensures vs[result] /\ 0 <= result < g_free
  @KEPT
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tVECTOR \/ i < 0 \/ i >= (old f_car)[x]
  raises Full: true

fn vector_ref
  file src/vector.c
  params x i
  uses scm.Vec
  @ALLOCS
  @SLOTS tVECTOR
  requires vs[i]
  reads cell_symbol_not_a_number
  ensures[checked] (old f_type)[x] = tVECTOR /\ (old f_type)[i] = tNUMBER /\ 0 <= (old f_cdr)[i] < (old f_car)[x]
  ensures[what-was-stored] reads_ f_type f_car f_cdr (old f_type) (old f_car) (old f_cdr) ((old f_cdr)[x] + 24 * (old f_cdr)[i]) result (old g_free)
  @KEPT
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tVECTOR \/ (old f_type)[i] <> tNUMBER \/ (old f_cdr)[i] < 0 \/ (old f_cdr)[i] >= (old f_car)[x]
  raises Full: true

macro SETSLOT
  requires vs[e] /\ 0 <= e < g_free
  ensures[stored] slot f_type f_car f_cdr ((old f_cdr)[x] + 24 * %1) e \/ e = (old f_cdr)[x] + 24 * %1
  ensures[only-that-slot] forall a. a < old g_free -> a <> (old f_cdr)[x] + 24 * %1 -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]
  ensures result = cell_unspecified
  raises Full: true
  @STOPKEPT
endmacro

fn vector_set_x_
  file src/vector.c
  params x i e
  uses scm.Vec
  @ALLOCS
  @SLOTS tVECTOR
  @SETSLOT i
  ensures[checked] (old f_type)[x] = tVECTOR /\ 0 <= i < (old f_car)[x]
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tVECTOR \/ i < 0 \/ i >= (old f_car)[x]

fn vector_set_x
  file src/vector.c
  params x i e
  uses scm.Vec
  @ALLOCS
  @SLOTS tVECTOR
  @SETSLOT (old f_cdr)[i];
  requires vs[i]
  reads cell_symbol_not_a_number
  ensures[checked] (old f_type)[x] = tVECTOR /\ (old f_type)[i] = tNUMBER /\ 0 <= (old f_cdr)[i] < (old f_car)[x]
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tVECTOR \/ (old f_type)[i] <> tNUMBER \/ (old f_cdr)[i] < 0 \/ (old f_cdr)[i] >= (old f_car)[x]

fn make_struct
  file src/struct.c
  params typ fields printer
  uses scm.Vec scm.List
  @ALLOCS
  ghost n: int
  requires 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free fields n
  requires obj typ g_cells g_free /\ obj printer g_cells g_free /\ obj cell_unspecified g_cells g_free
  requires forall k. 0 <= k < n -> obj f_car[nth f_cdr fields k] g_cells g_free
  ensures[fresh] result = old g_free
  ensures[record] f_type[result] = tSTRUCT /\ f_car[result] = n + 2 /\ f_cdr[result] = result + 24 /\ result + 24 * (n + 3) <= g_free
  ensures[type] slot f_type f_car f_cdr (result + 24) typ
  ensures[printer] slot f_type f_car f_cdr (result + 48) printer
  ensures[fields] forall k. 0 <= k < n -> slot f_type f_car f_cdr (result + 72 + 24 * k) (old f_car)[nth (old f_cdr) fields k]
  @KEPT
  raises Full: true
  ghostarg[length__] n
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 2 <= i <= size /\ size = n + 2 /\ x = g_free_in /\ v = x + 24 /\ v + 24 * size <= g_free
    inv[list] fields = nth f_cdr_in fields_0 (i - 2)
    inv[header] f_type[x] = tSTRUCT /\ f_car[x] = size /\ f_cdr[x] = v
    inv[type] slot f_type f_car f_cdr v typ /\ slot f_type f_car f_cdr (v + 24) printer
    start nth_step f_cdr_in fields_0 (i - 2)
    inv[fields] forall k. 0 <= k < i - 2 -> slot f_type f_car f_cdr (v + 48 + 24 * k) f_car_in[nth f_cdr_in fields_0 k]
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    variant size - i

fn struct_length
  file src/struct.c
  params x
  uses scm.Vec
  @ALLOCS
  requires vs[x]
  ensures[struct] (old f_type)[x] = tSTRUCT
  ensures[length] result = old g_free /\ f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- (old f_car)[x]]
  raises[only-for-no-struct] Stop: (old f_type)[x] <> tSTRUCT
  raises Full: true

fn struct_ref_
  file src/struct.c
  params x i
  uses scm.Vec
  @ALLOCS
  @SLOTS tSTRUCT
  ensures[checked] (old f_type)[x] = tSTRUCT /\ 0 <= i < (old f_car)[x]
  ensures[what-was-stored] reads_ f_type f_car f_cdr (old f_type) (old f_car) (old f_cdr) ((old f_cdr)[x] + 24 * i) result (old g_free)
  ensures vs[result] /\ 0 <= result < g_free
  @KEPT
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tSTRUCT \/ i < 0 \/ i >= (old f_car)[x]
  raises Full: true

fn struct_ref
  file src/struct.c
  params x i
  uses scm.Vec
  @ALLOCS
  @SLOTS tSTRUCT
  requires vs[i]
  reads cell_symbol_not_a_number
  ensures[checked] (old f_type)[x] = tSTRUCT /\ (old f_type)[i] = tNUMBER /\ 0 <= (old f_cdr)[i] < (old f_car)[x]
  ensures[what-was-stored] reads_ f_type f_car f_cdr (old f_type) (old f_car) (old f_cdr) ((old f_cdr)[x] + 24 * (old f_cdr)[i]) result (old g_free)
  @KEPT
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tSTRUCT \/ (old f_type)[i] <> tNUMBER \/ (old f_cdr)[i] < 0 \/ (old f_cdr)[i] >= (old f_car)[x]
  raises Full: true

fn struct_set_x_
  file src/struct.c
  params x i e
  uses scm.Vec
  @ALLOCS
  @SLOTS tSTRUCT
  @SETSLOT i
  ensures[checked] (old f_type)[x] = tSTRUCT /\ 0 <= i < (old f_car)[x]
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tSTRUCT \/ i < 0 \/ i >= (old f_car)[x]

fn struct_set_x
  file src/struct.c
  params x i e
  uses scm.Vec
  @ALLOCS
  @SLOTS tSTRUCT
  @SETSLOT (old f_cdr)[i];
  requires vs[i]
  reads cell_symbol_not_a_number
  ensures[checked] (old f_type)[x] = tSTRUCT /\ (old f_type)[i] = tNUMBER /\ 0 <= (old f_cdr)[i] < (old f_car)[x]
  raises[only-for-bad-arguments] Stop: (old f_type)[x] <> tSTRUCT \/ (old f_type)[i] <> tNUMBER \/ (old f_cdr)[i] < 0 \/ (old f_cdr)[i] >= (old f_car)[x]

fn list_to_vector
  file src/vector.c
  params x
  uses scm.Vec scm.List
  @ALLOCS
  ghost n: int
  ghostarg[length__] n
  requires 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free x n /\ obj cell_unspecified g_cells g_free
  requires forall k. 0 <= k < n -> obj f_car[nth f_cdr x k] g_cells g_free
  ensures[fresh] result = old g_free
  ensures[vector] f_type[result] = tVECTOR /\ f_car[result] = n /\ f_cdr[result] = result + 24 /\ result + 24 * (n + 1) <= g_free
  ensures[elements] forall k. 0 <= k < n -> slot f_type f_car f_cdr (result + 24 + 24 * k) (old f_car)[nth (old f_cdr) x k]
  @KEPT
  raises Full: true
  raises[never] Stop: false
  pre let ghost ref i = 0 in
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= n /\ v = g_free_in /\ v + 24 + 24 * n <= g_free /\ p = v + 24 + 24 * i
    inv[list] x = nth f_cdr_in x_0 i
    inv[header] f_type[v] = tVECTOR /\ f_car[v] = n /\ f_cdr[v] = v + 24
    start nth_step f_cdr_in x_0 i
    inv[elements] forall k. 0 <= k < i -> slot f_type f_car f_cdr (v + 24 + 24 * k) f_car_in[nth f_cdr_in x_0 k]
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    end i <- i + 1
    variant n - i

fn vector_to_list
  file src/vector.c
  params v
  uses scm.Vec scm.List
  @ALLOCS
  requires vs[v] /\ v < g_free
  requires[well-formed] f_type[v] = tVECTOR -> 0 <= f_car[v] <= 1000000000000000 /\ g_cells <= f_cdr[v] /\ f_cdr[v] + 24 * f_car[v] <= g_free
  requires[well-formed] f_type[v] = tVECTOR -> forall a. f_cdr[v] <= a < f_cdr[v] + 24 * f_car[v] -> mod (a - f_cdr[v]) 24 = 0 -> vs[a] /\ chr f_type f_cdr a /\ (f_type[a] = tREF -> vs[f_car[a]] /\ 0 <= f_car[a] < g_free /\ chr f_type f_cdr f_car[a])
  ensures[vector] (old f_type)[v] = tVECTOR
  ensures[list] nth f_cdr result (old f_car)[v] = cell_nil
  ensures[elements] forall k. 0 <= k < (old f_car)[v] -> nth f_cdr result k >= old g_free /\ f_type[nth f_cdr result k] = tPAIR
  |  /\ reads_ f_type f_car f_cdr (old f_type) (old f_car) (old f_cdr) ((old f_cdr)[v] + 24 * k) f_car[nth f_cdr result k] (old g_free)
  @KEPT
  raises[only-for-no-vector] Stop: (old f_type)[v] <> tVECTOR
  raises Full: true
  pre let ghost ref m = 0 in
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] g_free_in <= g_free /\ 0 <= i <= f_car_in[v] /\ m = f_car_in[v] - i /\ f_type_in[v] = tVECTOR
    inv[list] nth f_cdr x m = cell_nil
    inv[fresh] forall k. 0 <= k < m -> g_free_in <= nth f_cdr x k < g_free
    inv[elements] forall k. 0 <= k < m -> f_type[nth f_cdr x k] = tPAIR
    |  /\ reads_ f_type f_car f_cdr f_type_in f_car_in f_cdr_in (f_cdr_in[v] + 24 * (i + k)) f_car[nth f_cdr x k] g_free_in
    |  /\ f_car[nth f_cdr x k] < g_free
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { x at L0 }) x m
    end assert { nth f_cdr x 0 = x /\ f_type[x] = tPAIR /\ reads_ f_type f_car f_cdr f_type_in f_car_in f_cdr_in (f_cdr_in[v] + 24 * i) f_car[x] g_free_in /\ f_car[x] < g_free }
    end assert { forall k. 1 <= k <= m -> f_type[nth f_cdr x k] = tPAIR /\ f_car[nth f_cdr x k] = (f_car at L0)[nth (f_cdr at L0) (x at L0) (k-1)] }
    end assert { forall a. a < (g_free at L0) -> f_type[a] = (f_type at L0)[a] /\ f_car[a] = (f_car at L0)[a] /\ f_cdr[a] = (f_cdr at L0)[a] }
    end assert { forall k. 1 <= k <= m -> reads_ (f_type at L0) (f_car at L0) (f_cdr at L0) f_type_in f_car_in f_cdr_in (f_cdr_in[v] + 24 * (i + k)) (f_car at L0)[nth (f_cdr at L0) (x at L0) (k-1)] g_free_in }
    end assert { forall k. 1 <= k <= m -> reads_ f_type f_car f_cdr f_type_in f_car_in f_cdr_in (f_cdr_in[v] + 24 * (i + k)) f_car[nth f_cdr x k] g_free_in }
    end m <- m + 1
    variant i
