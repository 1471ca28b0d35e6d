# ---------------------------------------------------------------- binding and lookup
fn assert_defined
  file src/eval-apply.c
  params x e
  uses scm.Scm
  reads cell_symbol_unbound_variable cell_undefined
  writes -
  ensures[defined] e <> cell_undefined /\ result = e
  raises[only-when-unbound] Stop: e = cell_undefined

macro COUNTED
  requires vs[%1] /\ (f_type[%1] = tNUMBER -> in_s64 f_cdr[%1])
  requires[pairs] f_type[%1] <> tNUMBER -> 0 <= len[%1] <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free %1 len[%1]
  requires[end] f_type[%1] <> tNUMBER -> let e = nth f_cdr %1 len[%1] in e = cell_nil \/ e <> cell_nil /\ vs[e] /\ f_type[e] <> tPAIR
endmacro
fn check_formals
  file src/eval-apply.c
  params f formals args
  uses scm.Strg scm.List scm.Env
  @STRARENA
  callas itoa diag_itoa
  ghost len: map int int
  ghostarg[length__] len[$1]
  @COUNTED formals
  @COUNTED args
  requires f_type[args] <> tNUMBER
  reads cell_nil cell_unspecified cell_symbol_wrong_number_of_args
  writes g_free f_type f_car f_cdr m8
  ensures[counts-agree] let a = count_ (old f_type) (old f_cdr) cell_nil formals len[formals] in let b = count_ (old f_type) (old f_cdr) cell_nil args len[args] in a = b \/ a = -1 \/ b = -1
  ensures result = cell_unspecified
  @SAME
  ensures m8 = old m8
  raises[only-for-a-wrong-count] Stop: let a = count_ (old f_type) (old f_cdr) cell_nil formals len[formals] in let b = count_ (old f_type) (old f_cdr) cell_nil args len[args] in a <> b /\ a <> -1 /\ b <> -1
  raises[only-for-a-wrong-count] Full: let a = count_ (old f_type) (old f_cdr) cell_nil formals len[formals] in let b = count_ (old f_type) (old f_cdr) cell_nil args len[args] in a <> b /\ a <> -1 /\ b <> -1
  @STOPKEPT

fn pairlis
  file src/eval-apply.c
  params x y a
  uses scm.List scm.Env
  @ARENA
  ghost n: int
  ghost m: int
  requires[formals] vs[x] /\ 0 <= n <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free x n
  requires[formals-end] let e = nth f_cdr x n in vs[e] /\ e < g_free /\ f_type[e] <> tPAIR
  requires[arguments] vs[y] /\ 0 <= m <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free y m
  requires[arguments-end] let e = nth f_cdr y m in vs[e] /\ e < g_free /\ f_type[e] <> tPAIR
  writes g_free f_type f_car f_cdr
  reads cell_nil cell_symbol_not_a_pair cell_symbol_car cell_symbol_cdr
  ghostarg[pairlis] n - 1
  ghostarg[pairlis] m - 1
  variant n
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[arena] old g_free <= g_free
  ensures[enough-arguments] n <= m
  ensures[by-position] paired (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr (old g_free) g_free x y result n
  ensures[rest] let e = nth (old f_cdr) x n in let r = nth f_cdr result n in
  |  if e = cell_nil then r = a else old g_free <= r < g_free /\ f_type[r] = tPAIR /\ f_cdr[r] = a
  |    /\ let b = f_car[r] in old g_free <= b < g_free /\ f_type[b] = tPAIR /\ f_car[b] = e /\ f_cdr[b] = nth (old f_cdr) y n
  @KEPT
  raises[only-for-missing-arguments] Stop: m < n
  raises Full: true
  @STOPKEPT
  pre assert { nth f_cdr x 0 = x /\ nth f_cdr y 0 = y }
  pre let ghost ref ty1 = f_type in let ghost ref car1 = f_car in let ghost ref cdr1 = f_cdr in let ghost ref free1 = g_free in
  pre let ghost ref ty2 = f_type in let ghost ref car2 = f_car in let ghost ref cdr2 = f_cdr in let ghost ref free2 = g_free in let ghost ref r2 = 0 in
  hook[before:pairlis] ty1 <- f_type; car1 <- f_car; cdr1 <- f_cdr; free1 <- g_free
  hook[before:pairlis] assert { f_type_in[x] = tPAIR /\ f_type_in[y] = tPAIR }
  hook[before:pairlis] assert { 0 < n /\ 0 < m }
  hook[before:pairlis] chain_tail f_type_in f_cdr_in f_type f_cdr cell_nil g_cells g_free_in g_free x n
  hook[before:pairlis] chain_tail f_type_in f_cdr_in f_type f_cdr cell_nil g_cells g_free_in g_free y m
  hook[after:pairlis] ty2 <- f_type; car2 <- f_car; cdr2 <- f_cdr; free2 <- g_free; r2 <- $r
  post if pure { f_type_in[x] = tPAIR } then paired_push f_type_in f_car_in f_cdr_in ty1 car1 cdr1 ty2 car2 cdr2 f_type f_car f_cdr g_free_in free1 free2 g_free cell_nil g_cells x y r2 result_ n

# the module M0 and its table of globals
macro MODULE
  uses scm.Strg scm.Equal scm.Hash scm.Vec scm.List scm.Env
  @STRARENA
  reads cell_nil cell_f cell_symbol_system_error g_M0 m8
  ghost len: map int int
  requires[module] f_type[g_M0] = tSTRUCT /\ 6 <= f_car[g_M0] /\ slots vs f_type f_car f_cdr g_cells g_free g_M0
  requires[module] let s = f_cdr[g_M0] + 120 in f_type[s] = tREF /\ not imm f_type[globals_of f_car f_cdr g_M0]
  requires[globals] htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free (globals_of f_car f_cdr g_M0) len
  requires f_type[cell_f] <> tPAIR /\ cell_t <> cell_f /\ vs[cell_f] /\ 0 <= cell_f < g_free
  writes g_free f_type f_car f_cdr m8
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[arena] old g_free <= g_free
endmacro
macro NAMEARG
  requires vs[%1] /\ %1 < g_free /\ 0 <= f_type[%1] <= 17
  requires[well-formed] f_type[%1] = tSTRING \/ f_type[%1] = tKEYWORD \/ f_type[%1] = tSYMBOL \/ f_type[%1] = tSPECIAL -> wstr f_car f_cdr v8 %1 /\ m8[f_cdr[%1] + 16 + f_car[%1]] = 0 /\ f_cdr[%1] < g_free /\ f_type[f_cdr[%1]] = tBYTES
endmacro
macro LOCALS
  ghost n: int
  requires vs[%1] /\ %1 < g_free
  requires[locals] f_type[%1] = tPAIR -> 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free %1 n
  requires[locals] forall k. 0 <= k < n -> let e = f_car[nth f_cdr %1 k] in vs[e] /\ e < g_free /\ e <> cell_f /\ f_type[e] = tPAIR
  requires[locals] forall k. 0 <= k < n -> let y = keyat f_car f_cdr %1 k in vs[y] /\ 0 <= f_type[y] <= 17 /\ (f_type[y] = tKEYWORD -> wstr f_car f_cdr v8 y)
endmacro
# r is the entry of the innermost binding of name
macro BINDING
  ensures[innermost] %5forall k. local_first (old f_type) (old f_car) (old f_cdr) m8 %1 n %2 k -> %3 (old f_car)[nth (old f_cdr) %1 k] %4
  ensures[global] let t = globals_of (old f_car) (old f_cdr) g_M0 in let i = hidx m8 ((old f_cdr)[%2] + 16) (hsize (old f_cdr) t) in let b = hbucket (old f_car) (old f_cdr) t i in
  |  %5local_none (old f_type) (old f_car) (old f_cdr) m8 %1 n %2 -> forall k. first_eq (old f_car) (old f_cdr) b len[i] %2 k -> %3 (old f_car)[nth (old f_cdr) b k] %4
endmacro
fn module_variable
  file src/module.c
  params module_ name
  @MODULE
  @LOCALS module_
  @NAMEARG name
  @BINDING module_; name; result =; ;
  ensures[unbound] result = cell_f <-> unbound (old f_type) (old f_car) (old f_cdr) m8 g_M0 module_ n len name
  ensures result <> cell_f -> vs[result] /\ result < old g_free /\ (old f_type)[result] = tPAIR
  ensures[same-text] m8 = old m8
  @KEPT
  raises[only-for-no-symbol] Stop: (old f_type)[name] <> tSYMBOL /\ (old f_type)[name] <> tSPECIAL
  raises Full: true
  @STOPKEPT
  ghostarg[assq] n
  ghostarg[hashq_get_handle] len
  pre let ghost i = pure { hidx m8 (f_cdr[name] + 16) (hsize f_cdr (globals_of f_car f_cdr g_M0)) } in let ghost t = pure { globals_of f_car f_cdr g_M0 } in
  pre assert { f_cdr[g_M0] + 120 < g_free /\ t < g_free }
  hook[before:hashq_get_handle] assert { $1 = t }
  hook[before:hashq_get_handle] htab_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free t len
  hook[before:hashq_get_handle] assert { hsize f_cdr t = hsize f_cdr_in t /\ f_cdr[name] = f_cdr_in[name] /\ f_type[name] = f_type_in[name] }
  hook[before:hashq_get_handle] if 0 <= i && i < pure { hsize f_cdr t } then bucket_same vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free t len i

fn module_ref
  file src/module.c
  params module_ name
  @MODULE
  @LOCALS module_
  @NAMEARG name
  reads cell_undefined
  @BINDING module_; name; result = (old f_cdr)[; ]; ;
  ensures[unbound] unbound (old f_type) (old f_car) (old f_cdr) m8 g_M0 module_ n len name -> result = cell_undefined
  ensures[same-text] m8 = old m8
  @KEPT
  raises[only-for-no-symbol] Stop: (old f_type)[name] <> tSYMBOL /\ (old f_type)[name] <> tSPECIAL
  raises Full: true
  @STOPKEPT
  ghostarg[module_variable] len
  ghostarg[module_variable] n

fn module_define_x
  file src/module.c
  params module_ name value
  @MODULE
  @NAMEARG name
  requires vs[value] /\ 0 <= value < g_free
  requires[nil] f_type[cell_nil] <> tPAIR /\ cell_nil < g_free
  reads cell_unspecified
  requires[room] forall i. 0 <= i < hsize f_cdr (globals_of f_car f_cdr g_M0) -> len[i] < 1000000000000
  ensures result = value
  ensures[stored] let t = globals_of (old f_car) (old f_cdr) g_M0 in let i = hidx m8 ((old f_cdr)[name] + 16) (hsize (old f_cdr) t) in let b = hbucket f_car f_cdr t i in
  |  keyat f_car f_cdr b 0 = name /\ valat f_car f_cdr b 0 = value
  ensures[others-follow] let t = globals_of (old f_car) (old f_cdr) g_M0 in let i = hidx m8 ((old f_cdr)[name] + 16) (hsize (old f_cdr) t) in let b = hbucket (old f_car) (old f_cdr) t i in let c = hbucket f_car f_cdr t i in
  |  forall k. 1 <= k <= len[i] -> keyat f_car f_cdr c k = keyat (old f_car) (old f_cdr) b (k-1) /\ valat f_car f_cdr c k = valat (old f_car) (old f_cdr) b (k-1)
  ensures[other-buckets-kept] let t = globals_of (old f_car) (old f_cdr) g_M0 in let i = hidx m8 ((old f_cdr)[name] + 16) (hsize (old f_cdr) t) in
  |  forall j. 0 <= j < hsize (old f_cdr) t -> j <> i -> hbucket f_car f_cdr t j = hbucket (old f_car) (old f_cdr) t j
  ensures[table] let t = globals_of (old f_car) (old f_cdr) g_M0 in let i = hidx m8 ((old f_cdr)[name] + 16) (hsize (old f_cdr) t) in
  |  htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free t len[i <- len[i] + 1] /\ hsize f_cdr t = hsize (old f_cdr) t
  ensures[same-text] m8 = old m8
  raises[only-for-no-symbol] Stop: (old f_type)[name] <> tSYMBOL /\ (old f_type)[name] <> tSPECIAL
  raises Full: true
  @STOPKEPT
  ghostarg[hashq_set_x] len
  pre let ghost i = pure { hidx m8 (f_cdr[name] + 16) (hsize f_cdr (globals_of f_car f_cdr g_M0)) } in let ghost t = pure { globals_of f_car f_cdr g_M0 } in
  pre assert { f_cdr[g_M0] + 120 < g_free /\ t < g_free }
  hook[before:hashq_set_x] assert { $1 = t }
  hook[before:hashq_set_x] htab_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free t len
  hook[before:hashq_set_x] assert { hsize f_cdr t = hsize f_cdr_in t /\ f_cdr[name] = f_cdr_in[name] /\ f_type[name] = f_type_in[name] }
  hook[before:hashq_set_x] if 0 <= i && i < pure { hsize f_cdr t } then bucket_same vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free t len i

fn set_env_x
  file src/eval-apply.c
  params x e a
  @MODULE
  @LOCALS a
  @NAMEARG x
  requires[variable] f_type[x] = tVARIABLE -> vs[f_car[x]] /\ f_car[x] < g_free
  requires f_type[cell_undefined] <> tPAIR /\ cell_undefined <> cell_f
  reads cell_unspecified cell_undefined cell_symbol_unbound_variable cell_symbol_not_a_pair
  @BINDING a; x; assigned (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr (old g_free) (; ) e; (old f_type)[x] <> tVARIABLE -> ;
  ensures[variable] (old f_type)[x] = tVARIABLE -> assigned (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr (old g_free) (old f_car)[x] e
  ensures[bound] (old f_type)[x] <> tVARIABLE -> not unbound (old f_type) (old f_car) (old f_cdr) m8 g_M0 a n len x
  ensures[same-text] m8 = old m8
  raises[only-when-unbound] Stop: if (old f_type)[x] = tVARIABLE then (old f_type)[(old f_car)[x]] <> tPAIR else (old f_type)[x] <> tSYMBOL /\ (old f_type)[x] <> tSPECIAL \/ unbound (old f_type) (old f_car) (old f_cdr) m8 g_M0 a n len x
  raises Full: true
  @STOPKEPT
  ghostarg[module_variable] len
  ghostarg[module_variable] n
  hook[before:set_cdr_x] assert { f_type[$1] = tPAIR }

fn make_closure_
  file src/eval-apply.c
  params args body a
  @ALLOCS
  reads cell_f cell_circular
  ensures[closure] result >= old g_free /\ result < g_free /\ f_type[result] = tCLOSURE
  ensures[environment] let c = f_cdr[result] in let e = f_car[c] in f_type[c] = tPAIR /\ f_type[e] = tPAIR /\ f_car[e] = cell_circular /\ f_cdr[e] = a
  ensures[code] let d = f_cdr[f_cdr[result]] in f_type[d] = tPAIR /\ f_car[d] = args /\ f_cdr[d] = body
  @KEPT
  raises[room] Full: old g_free + 96 > g_cells + 24 * g_ARENA_SIZE

fn make_variable_
  file src/eval-apply.c
  params var
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tVARIABLE] /\ f_car = (old f_car)[result <- var] /\ f_cdr = (old f_cdr)[result <- 0]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn call_lambda
  file src/eval-apply.c
  params e x aa a
  uses scm.Env
  @ALLOCS
  reads cell_closure cell_unspecified
  writes g_R0 g_R1
  ensures[body] g_R1 = e
  ensures[environment] let b = f_car[g_R0] in old g_free <= g_R0 < g_free /\ f_type[g_R0] = tPAIR /\ f_cdr[g_R0] = x
  |  /\ old g_free <= b < g_free /\ f_type[b] = tPAIR /\ f_car[b] = cell_closure /\ f_cdr[b] = x
  @KEPT
  raises[room] Full: old g_free + 48 > g_cells + 24 * g_ARENA_SIZE

macro FORMALS
  uses scm.Scm scm.List scm.Env
  ghost n: int
  requires[formals] vs[%1] /\ 0 <= n <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free %1 n
  requires[formals-end] let e = nth f_cdr %1 n in vs[e] /\ e < g_free /\ f_type[e] <> tPAIR
endmacro
fn add_formals
  file src/eval-apply.c
  params formals x
  @ARENA
  @FORMALS x
  reads cell_nil
  writes g_free f_type f_car f_cdr
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[added] let e = nth (old f_cdr) x n in let s = if (old f_type)[e] = tSYMBOL then 1 else 0 in
  |  nth f_cdr result (n + s) = formals /\ (s = 1 -> f_car[result] = e /\ f_type[result] = tPAIR) /\ forall k. 0 <= k < n -> let c = nth f_cdr result (s + n - 1 - k) in f_type[c] = tPAIR /\ f_car[c] = (old f_car)[nth (old f_cdr) x k]
  @KEPT
  raises Full: true
  pre let ghost ref i = 0 in let ghost ref cdr2 = f_cdr in let ghost ref r2 = 0 in
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= n /\ x = nth f_cdr_in x_0 i /\ g_free_in <= g_free
    inv[list] chain f_type_in f_cdr_in cell_nil g_cells g_free_in x_0 n
    inv[added] forall k. 0 <= k < i -> let c = nth f_cdr formals (i - 1 - k) in g_free_in <= c < g_free /\ f_type[c] = tPAIR /\ f_car[c] = f_car_in[nth f_cdr_in x_0 k]
    inv[added] forall k. 0 <= k < i -> g_free_in <= nth f_cdr formals k < g_free
    inv[tail] nth f_cdr formals i = formals_0
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    start nth_step f_cdr_in x_0 i
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { formals at L0 }) formals i
    end i <- i + 1
    variant n - i
    after cdr2 <- f_cdr; r2 <- formals
  post if pure { f_type_in[nth f_cdr_in x_0 n] = tSYMBOL } then nth_push cdr2 f_cdr r2 result_ n

fn formal_p
  file src/eval-apply.c
  params x formals
  @ARENA
  @FORMALS formals
  reads cell_nil g_free vs
  writes -
  ensures[formal] result <> 0 <-> (let e = nth f_cdr formals n in f_type[e] = tSYMBOL /\ x = e) \/ exists k. 0 <= k < n /\ f_car[nth f_cdr formals k] = x
  pre let ghost ref i = 0 in
  pre nth_step f_cdr formals 0
  loop
    inv[position] 0 <= i <= n /\ formals = nth f_cdr formals_0 i
    inv[not-yet] forall k. 0 <= k < i -> f_car[nth f_cdr formals_0 k] <> x
    start nth_step f_cdr formals_0 i
    end i <- i + 1
    variant n - i

# ---------------------------------------------------------------- the stack of frames
macro STACK
  uses mem.Mem scm.Scm scm.Env scm.Stack
  reads g_stack_array g_stack g_STACK_SIZE v64 m64
  requires[stack] stack v64 g_stack_array g_STACK_SIZE /\ 0 <= g_stack <= g_STACK_SIZE
endmacro
fn gc_push_frame
  file src/gc.c
  @STACK
  reads cell_f g_R0 g_R1 g_R2 g_R3
  writes m64 g_stack
  ensures[frame] g_stack = old g_stack - 5 /\ 0 <= g_stack
  ensures[frame] frame m64 g_stack_array g_stack g_R0 g_R1 g_R2 g_R3
  ensures[frame] m64[g_stack_array + 8 * (g_stack + 4)] = cell_f
  ensures[below] forall a. not (g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * old g_stack) -> m64[a] = (old m64)[a]
  raises[only-when-full] Stop: old g_stack < 5

fn gc_peek_frame
  file src/gc.c
  @STACK
  requires g_stack + 5 <= g_STACK_SIZE
  reads m64
  writes g_R0 g_R1 g_R2 g_R3
  ensures[frame] frame m64 g_stack_array g_stack g_R0 g_R1 g_R2 g_R3

fn gc_pop_frame
  file src/gc.c
  @STACK
  requires g_stack + 5 <= g_STACK_SIZE
  reads m64
  writes g_R0 g_R1 g_R2 g_R3 g_stack
  ensures[frame] frame m64 g_stack_array (old g_stack) g_R0 g_R1 g_R2 g_R3
  ensures[popped] g_stack = old g_stack + 5

fn push_cc
  file src/eval-apply.c
  params p1 p2 a c
  @STACK
  reads cell_f cell_unspecified
  writes g_R0 g_R1 g_R2 g_R3 m64 g_stack
  ensures[frame] g_stack = old g_stack - 5 /\ 0 <= g_stack
  ensures[saved] frame m64 g_stack_array g_stack (old g_R0) (old g_R1) p2 c
  ensures[registers] g_R0 = a /\ g_R1 = p1 /\ g_R2 = p2 /\ g_R3 = old g_R3
  ensures[below] forall a. not (g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * old g_stack) -> m64[a] = (old m64)[a]
  raises[only-when-full] Stop: old g_stack < 5
