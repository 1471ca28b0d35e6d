# ---------------------------------------------------------------- the collector
extern none_gc_up_arena
  file src/gc.c
  function gc_up_arena
  params
  writes -
  requires false

# the texts of debug output
extern some_text
  file lib/mes/ltoa.c
  function ltoa
  params x
  writes -
extern some_numeral
  file lib/mes/ntoab.c
  function ntoab
  params x base signed_p
  writes -

fn some_address
  file lib/m2/cast.c
  function cast_voidp_to_long
  params x
  writes -
  ensures[same] result = x

macro GC
  uses mem.Str scm.Scm gc.Gc
  reads vs v8
  requires[world] world
  requires[storage] storage vs v8
endmacro
macro COPIES
  @GC
  requires[copies] inv f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
  uses scm.Env scm.Port scm.Stack
  reads g_stack_array g_stack g_STACK_SIZE
  requires[room] g_free <= w_lim /\ 0 <= g_stack <= g_STACK_SIZE <= 1000000000000 /\ g_stack_array + 8 * g_stack = w_lim
  writes g_free f_type f_car f_cdr m8 gh_nd gh_src
  raises[only-when-the-copies-do-not-fit] Stop: exists o. w_ob[o] /\ g_free + 24 * cells o > w_lim
endmacro

fn gc_copy
  file src/gc.c
  params old_
  callas cast_voidp_to_long some_address
  callas ltoa some_text
  @COPIES
  reads gh_cs gh_ds
  requires[object] w_ob[old_]
  ensures[copies] inv f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
  ensures[the-copy] done_ f_type old_ /\ f_car[old_] = result
  ensures[once] forall o. done_ f_type o <-> (done_ (old f_type) o \/ o = old_)
  ensures[kept] forall o. done_ (old f_type) o -> f_car[o] = (old f_car)[o]
  ensures[kept] forall a. w_hi <= a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]
  ensures[kept] forall a. a < old g_free -> gh_nd[a] = (old gh_nd)[a] /\ gh_src[a] = (old gh_src)[a]
  ensures[room] g_free <= w_lim
  ensures[progress] if done_ (old f_type) old_ then g_free = old g_free /\ todo f_type w_hi = todo (old f_type) w_hi
  |  else result = old g_free /\ g_free = old g_free + 24 * cells old_ /\ 0 <= todo f_type w_hi < todo (old f_type) w_hi
  pre let ghost _ = room_for f_type vs v8 g_free old_ in
  hook[before:cast_voidp_to_long#0] assert { n = cells old_ }
  hook[after:cast_voidp_to_long#1] assert { $r <= w_lim -> vs[new] }
  loop
    inv[position] 0 <= i <= w_car[old_] /\ new = g_free_in /\ g_free = new + 24 + 24 * i /\ vecp w_ty[old_] /\ not done_ f_type_in old_
    inv[original] f_type[old_] = w_ty[old_] /\ f_car[old_] = w_car[old_] /\ f_cdr[old_] = w_cdr[old_] /\ old_ < w_hi < new /\ cells old_ = 1 + w_car[old_]
    inv[header] f_type[new] = w_ty[old_] /\ f_car[new] = w_car[old_] /\ f_cdr[new] = new + 24
    inv[kept] forall a. a < new -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    inv[block] block_of f_type f_car f_cdr gh_nd gh_src (new + 24) old_ i
    inv[nodes] nodes_below gh_nd_in gh_nd gh_src_in gh_src new /\ none_above gh_nd new g_free
    end assert { let e = new + 24 + 24 * (i - 1) in gh_nd[e] /\ gh_src[e] = w_cdr[old_] + 24 * (i - 1) /\ f_type[e] = w_ty[gh_src[e]] /\ f_car[e] = w_car[gh_src[e]] /\ f_cdr[e] = w_cdr[gh_src[e]] }
    end assert { forall e. new + 24 <= e < new + 24 + 24 * (i - 1) -> gh_nd[e] = (gh_nd at L0)[e] /\ gh_src[e] = (gh_src at L0)[e] /\ f_type[e] = (f_type at L0)[e] /\ f_car[e] = (f_car at L0)[e] /\ f_cdr[e] = (f_cdr at L0)[e] }
    end assert { forall e. new + 24 + 24 * (i - 1) <= e < new + 24 + 24 * i -> mod (e - (new + 24)) 24 = 0 -> e = new + 24 + 24 * (i - 1) }
    variant w_car[old_] - i
  hook[before:cell_ref] assert { i < w_car[old_] }; mod24 (get w_cdr old_) i; mod24 (new + 24) i; assert { vs[new + 24 + 24 * i] }; block_cell old_ i; el_cell vs v8 (get w_cdr old_ + 24 * i); assert { not done_ f_type_in (w_cdr[old_] + 24 * i) }; assert { let s = w_cdr[old_] + 24 * i in s < w_hi < new /\ f_type[s] = w_ty[s] /\ f_car[s] = w_car[s] /\ f_cdr[s] = w_cdr[s] }; gh_nd <- set gh_nd g_free true; gh_src <- set gh_src g_free (get w_cdr old_ + 24 * i)
  hook[return] if pure { (f_type_in)[old_] <> tBROKEN_HEART } then begin assert { g_free = g_free_in + 24 * cells old_ }; assert { g_free <= w_lim }; gh_nd <- set gh_nd g_free_in true; gh_src <- set gh_src g_free_in old_; assert { kept_below f_type_in f_car_in f_cdr_in m8_in f_type f_car f_cdr m8 g_free_in old_ }; assert { nodes_below gh_nd_in gh_nd gh_src_in gh_src g_free_in }; assert { vecp w_ty[old_] -> block_of f_type f_car f_cdr gh_nd gh_src (g_free_in + 24) old_ w_car[old_] }; assert { w_ty[old_] = tBYTES -> payload m8 g_free_in old_ }; assert { copied f_type f_car f_cdr m8 gh_nd gh_src g_free_in g_free old_ }; copy_step f_type_in f_car_in f_cdr_in m8_in gh_nd_in gh_src_in gh_cs gh_ds g_free_in f_type f_car f_cdr m8 gh_nd gh_src g_free old_; rest_one f_type_in f_type w_hi old_ end

fn gc_relocate_car
  file src/gc.c
  params new car
  uses mem.Mem scm.Scm
  requires vs[new]
  writes f_car
  ensures[only-that] f_car = (old f_car)[new <- car]

fn gc_relocate_cdr
  file src/gc.c
  params new cdr
  uses mem.Mem scm.Scm
  requires vs[new]
  writes f_cdr
  ensures[only-that] f_cdr = (old f_cdr)[new <- cdr]

fn gc_cellcpy
  file src/gc.c
  params dest src n
  callas ntoab some_numeral
  opt wrap
  uses mem.Str scm.Scm gc.Gc
  @GC
  reads gh_nd
  requires[place] w_lo <= dest < src /\ mod (dest - w_lo) 24 = 0 /\ mod (src - dest) 24 = 0 /\ src + 24 * n <= w_lim
  requires[row] row f_type f_car f_cdr gh_nd src (src + 24 * n) (src - dest) /\ (n = 0 \/ gh_nd[src])
  writes f_type f_car f_cdr m8
  ensures[moved] forall k. gh_nd[k] -> moved (old f_type) (old f_car) (old f_cdr) (old m8) f_type f_car f_cdr m8 (src - dest) k
  raises[never] Stop: false
  loop
    inv[position] 0 <= n <= n_0 /\ src + 24 * n = src_0 + 24 * n_0 /\ src - dest = src_0 - dest_0 /\ src_0 <= src /\ (n = 0 \/ gh_nd[src]) /\ mod (src - src_0) 24 = 0 /\ dist = src_0 - dest_0
    inv[moved] forall k. gh_nd[k] -> k < src -> moved f_type_in f_car_in f_cdr_in m8_in f_type f_car f_cdr m8 (src_0 - dest_0) k
    inv[rest] forall a. src <= a -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a] /\ m8[a] = m8_in[a]
    end let ghost p0 = (pure { src at L0 }) in assert { gh_nd[p0] }; row_next f_type_in f_car_in f_cdr_in gh_nd src_0 (src_0 + 24 * n_0) (src_0 - dest_0) p0; assert { src = p0 + 24 * nsz f_type_in f_car_in p0 }; assert { n = (n at L0) - nsz f_type_in f_car_in p0 }; assert { src = src_0 + 24 * n_0 \/ gh_nd[src] }; assert { moved f_type_in f_car_in f_cdr_in m8_in f_type f_car f_cdr m8 (src_0 - dest_0) p0 }; move_step f_type_in f_car_in f_cdr_in m8_in (pure { f_type at L0 }) (pure { f_car at L0 }) (pure { f_cdr at L0 }) (pure { m8 at L0 }) f_type f_car f_cdr m8 gh_nd src_0 (src_0 + 24 * n_0) (src_0 - dest_0) p0
    variant n

extern gc_stats_
  file src/gc.c
  params where
  writes -

macro ROOTS
  uses scm.Env scm.Port scm.Stack
  reads g_stack_array g_stack g_STACK_SIZE v64
  requires[stack] stack v64 g_stack_array g_STACK_SIZE /\ 0 <= g_stack <= g_STACK_SIZE
  reads g_cells g_news
  writes g_symbols g_macros g_ports g_M0 m64
endmacro
macro SHIFTED
  ensures[roots] g_symbols = old g_symbols - shift /\ g_macros = old g_macros - shift /\ g_ports = old g_ports - shift /\ g_M0 = old g_M0 - shift
  ensures[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> m64[a] = (old m64)[a] - shift
endmacro

fn gc_flip
  file src/gc.c
  params
  @GC
  @ROOTS
  reads gh_nd
  requires[place] g_cells = w_lo /\ g_news = w_hi + 24 /\ w_hi + 48 <= g_free <= w_lim /\ mod (g_free - w_hi) 24 = 0
  requires[row] row f_type f_car f_cdr gh_nd g_news g_free shift /\ gh_nd[g_news]
  requires[roots] shift <= g_symbols <= w_lim /\ shift <= g_macros <= w_lim /\ shift <= g_ports <= w_lim /\ shift <= g_M0 <= w_lim
  requires[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> shift <= m64[a] <= w_lim
  writes g_free f_type f_car f_cdr m8 g_JAM_SIZE cell_arena
  ensures[free] g_free = old g_free - shift
  ensures[moved] forall k. gh_nd[k] -> moved (old f_type) (old f_car) (old f_cdr) (old m8) f_type f_car f_cdr m8 shift k
  @SHIFTED
  loop
    inv[position] g_stack <= i <= g_STACK_SIZE /\ dist * 24 = shift
    inv[done] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * i -> mod (a - g_stack_array) 8 = 0 -> m64[a] = m64_in[a] - shift
    inv[rest] forall a. a >= g_stack_array + 8 * i -> m64[a] = m64_in[a]
    inv[below] forall a. a < g_stack_array + 8 * g_stack -> m64[a] = m64_in[a]
    variant g_STACK_SIZE - i

fn gc_loop
  file src/gc.c
  params scan
  @COPIES
  @ROOTS
  requires[place] g_cells = w_lo /\ g_news = w_hi + 24 /\ f_type[w_hi + 24] = tCHAR
  requires[scan] scan = w_hi + 48 /\ gh_cs = scan /\ gh_ds = scan
  requires[roots] gh_nd[g_symbols] /\ gh_nd[g_macros] /\ gh_nd[g_ports] /\ gh_nd[g_M0]
  requires[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> gh_nd[m64[a]]
  writes gh_cs gh_ds gh_fty gh_fcar g_JAM_SIZE cell_arena
  ensures[preserved] preserved gh_fty gh_fcar f_type f_car f_cdr m8 g_free
  ensures[apart] apart gh_fty gh_fcar f_cdr
  ensures[bound] w_lo + 24 <= g_free <= w_lim
  ensures[copies] forall o. done_ (old f_type) o -> done_ gh_fty o /\ gh_fcar[o] = (old f_car)[o]
  @SHIFTED
  loop
    inv[position] w_hi + 48 <= scan /\ gh_cs = scan /\ gh_ds = scan /\ (scan = g_free \/ gh_nd[scan])
    inv[copies] inv f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
    inv[room] g_free <= w_lim
    inv[zero] f_type[w_hi + 24] = tCHAR
    inv[kept] forall o. done_ f_type_in o -> done_ f_type o /\ f_car[o] = f_car_in[o]
    inv[nodes] forall a [gh_nd_in[a]]. gh_nd_in[a] -> gh_nd[a]
    start scan_at f_type f_car f_cdr m8 gh_nd gh_src vs v8 scan g_free
    start nodes_in f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
    end let ghost n0 = (pure { scan at L0 }) in
    |  assert { gh_nd[n0] /\ gh_src[n0] = (gh_src at L0)[n0] /\ n0 < g_free };
    |  if pure { gh_cs = n0 } then begin car_skip f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free; gh_cs <- gh_cs + 1 end;
    |  if pure { gh_ds = n0 } then begin cdr_skip f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free; gh_ds <- gh_ds + 1 end;
    |  next_step f_type f_car f_cdr m8 gh_nd gh_src n0 g_free;
    |  assert { scan = n0 + 24 * sz gh_src[n0] };
    |  gh_cs <- scan; gh_ds <- scan
    after nodes_in f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
    variant todo f_type w_hi, g_free - scan
  hook[before:gc_relocate_car] car_step f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free $2; gh_cs <- gh_cs + 1
  hook[before:gc_relocate_cdr] cdr_step f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free $2; gh_ds <- gh_ds + 1
  pre let ghost ref nd0 = gh_nd in let ghost ref cdr0 = f_cdr in let ghost ref mem0 = m8 in let ghost ref free0 = g_free in
  hook[before:gc_flip] assert { scan = g_free }; gh_fty <- f_type; gh_fcar <- f_car; cdr0 <- f_cdr; mem0 <- m8; nd0 <- gh_nd; free0 <- g_free;
  |  to_row f_type f_car f_cdr m8 gh_nd gh_src g_free;
  |  assert { within gh_nd g_free };
  |  assert { forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> gh_nd[m64[a]] };
  |  gh_nd <- set gh_nd (w_hi + 24) true
  hook[after:gc_flip] assert { forall k [nd0[k]]. nd0[k] -> gh_nd[k] }; finish gh_fty gh_fcar cdr0 mem0 nd0 gh_src free0 f_type f_car f_cdr m8

fn gc_init_news
  file src/gc.c
  params
  uses mem.Mem scm.Scm gc.Gc
  requires vs[g_free] /\ vs[g_free + 24] /\ vs[cell_arena]
  reads g_free cell_arena
  writes g_news f_type f_car f_cdr
  ensures[news] g_news = g_free + 24 /\ f_type[g_news] = tCHAR
  ensures[kept] forall a. a < g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]

macro COLLECT
  @GC
  @ROOTS
  reads g_cells cell_nil g_symbol_max g_arena
  requires[heap] g_cells = w_lo /\ g_free = w_hi /\ g_cells = g_arena + 24 /\ vs[cell_arena] /\ snapshot f_type f_car f_cdr m8
  requires[specials] cell_nil = w_lo + 24 /\ cell_nil <= g_symbol_max <= w_hi /\ mod (g_symbol_max - cell_nil) 24 = 0 /\ forall s. special cell_nil g_symbol_max s -> w_ob[s] /\ cells s = 1
  requires[roots] w_ob[g_symbols] /\ w_ob[g_macros] /\ w_ob[g_ports] /\ w_ob[g_M0]
  requires[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> w_ob[m64[a]]
  writes g_news g_free f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds gh_fty gh_fcar g_JAM_SIZE cell_arena
  ensures[preserved] preserved gh_fty gh_fcar f_type f_car f_cdr m8 g_free
  ensures[apart] apart gh_fty gh_fcar f_cdr
  ensures[bound] w_lo + 24 <= g_free <= w_lim
  ensures[specials] forall s. special cell_nil g_symbol_max s -> done_ gh_fty s /\ to_ gh_fcar s = s
  ensures[symbols] done_ gh_fty (old g_symbols) /\ g_symbols = to_ gh_fcar (old g_symbols)
  ensures[macros] done_ gh_fty (old g_macros) /\ g_macros = to_ gh_fcar (old g_macros)
  ensures[ports] done_ gh_fty (old g_ports) /\ g_ports = to_ gh_fcar (old g_ports)
  ensures[modules] done_ gh_fty (old g_M0) /\ g_M0 = to_ gh_fcar (old g_M0)
  ensures[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> done_ gh_fty (old m64)[a] /\ m64[a] = to_ gh_fcar (old m64)[a]
endmacro
fn gc_
  file src/gc.c
  params
  callas gc_up_arena none_gc_up_arena
  callas ltoa some_text
  callas cast_voidp_to_long some_address
  @COLLECT
  requires[room] g_stack_array + 8 * g_stack = w_lim
  raises[only-when-the-copies-do-not-fit] Stop: exists o. w_ob[o] /\ g_free + 24 * cells o > w_lim
  pre let ghost _ = (nothing_copied f_type f_car f_cdr m8 gh_src; gh_nd <- pure { no_node }; gh_cs <- pure { w_hi + 48 }; gh_ds <- pure { w_hi + 48 }) in
  hook[after:gc_init_news] nothing_copied f_type f_car f_cdr m8 gh_src
  loop
    inv[position] cell_nil <= s <= g_symbol_max /\ mod (s - cell_nil) 24 = 0 /\ g_free = w_hi + 48 + (s - cell_nil)
    inv[copies] inv f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
    inv[room] g_free <= w_lim
    inv[zero] f_type[w_hi + 24] = tCHAR
    inv[only] forall o. done_ f_type o -> cell_nil <= o < s
    inv[specials] forall o. special cell_nil s o -> forwarded f_type f_car o (w_hi + 48 + (o - cell_nil))
    start assert { s < g_symbol_max -> special cell_nil g_symbol_max s }
    end let ghost s0 = (pure { s at L0 }) in assert { forall o. special cell_nil s o -> o = s0 \/ special cell_nil s0 o }
    variant g_symbol_max - s
  loop
    inv[position] g_stack <= i <= g_STACK_SIZE
    inv[copies] inv f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free
    inv[room] g_free <= w_lim
    inv[zero] f_type[w_hi + 24] = tCHAR
    inv[specials] forall o. special cell_nil g_symbol_max o -> forwarded f_type f_car o (w_hi + 48 + (o - cell_nil))
    inv[roots] forwarded f_type f_car g_symbols_in g_symbols /\ forwarded f_type f_car g_macros_in g_macros /\ forwarded f_type f_car g_ports_in g_ports /\ forwarded f_type f_car g_M0_in g_M0
    inv[stack] forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * i -> mod (a - g_stack_array) 8 = 0 -> forwarded f_type f_car m64_in[a] m64[a]
    inv[rest] forall a. a < g_stack_array + 8 * g_stack \/ a >= g_stack_array + 8 * i -> m64[a] = m64_in[a]
    start let ghost a1 = pure { g_stack_array + 8 * i } in assert { a1 - g_stack_array = 8 * i + 0 }; assert { mod (a1 - g_stack_array) 8 = 0 }; assert { m64[a1] = m64_in[a1] }; assert { i < g_STACK_SIZE -> w_ob[m64[a1]] }
    end assert { forall o n. forwarded (f_type at L1) (f_car at L1) o n -> forwarded f_type f_car o n }
    end assert { forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * (i - 1) -> mod (a - g_stack_array) 8 = 0 -> m64[a] = (m64 at L1)[a] /\ forwarded f_type f_car m64_in[a] m64[a] }
    end let ghost a0 = pure { g_stack_array + 8 * (i - 1) } in assert { forall a. a0 <= a < g_stack_array + 8 * i -> mod (a - g_stack_array) 8 = 0 -> a = a0 }; assert { forwarded f_type f_car m64_in[a0] m64[a0] }
    variant g_STACK_SIZE - i
  hook[before:gc_loop] assert { i = g_STACK_SIZE }; forwarded_nodes f_type f_car f_cdr m8 gh_nd gh_src gh_cs gh_ds g_free; assert { forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> forwarded f_type f_car m64_in[a] m64[a] }

extern some_variable
  file lib/posix/getenv.c
  function getenv
  params s
  writes -
extern dumping
  file src/gc.c
  function gc_dump_arena
  params cells size
  writes -
extern the_time
  file lib/linux/clock_gettime.c
  function clock_gettime
  params id ts
  writes -
fn gc
  file src/gc.c
  params
  callas getenv some_variable
  callas gc_dump_arena dumping
  callas clock_gettime the_time
  opt wrap
  @COLLECT
  requires[room] g_stack_array + 8 * (g_stack - 5) = w_lim
  reads cell_f gc_start_time gc_end_time cell_unspecified
  requires[clocks] vs[gc_start_time] /\ vs[gc_end_time]
  requires[registers] special cell_nil g_symbol_max cell_f /\ w_ob[g_R0] /\ w_ob[g_R1] /\ w_ob[g_R2] /\ w_ob[g_R3]
  writes g_stack g_R0 g_R1 g_R2 g_R3 gc_time gc_count
  ensures[environment] done_ gh_fty (old g_R0) /\ g_R0 = to_ gh_fcar (old g_R0)
  ensures[registers] done_ gh_fty (old g_R1) /\ g_R1 = to_ gh_fcar (old g_R1)
  ensures[registers] done_ gh_fty (old g_R2) /\ g_R2 = to_ gh_fcar (old g_R2)
  ensures[registers] done_ gh_fty (old g_R3) /\ g_R3 = to_ gh_fcar (old g_R3)
  ensures[balanced] g_stack = old g_stack
  ensures[result] result = cell_unspecified
  raises[only-when-the-copies-do-not-fit-or-the-stack-is-full] Stop: old g_stack < 5 \/ exists o. w_ob[o] /\ g_free + 24 * cells o > w_lim
  pre let ghost m0 = m64 in let ghost s0 = g_stack in
  hook[before:gc_] five g_stack_array g_stack; assert { forall a. g_stack_array + 8 * s0 <= a < g_stack_array + 8 * g_STACK_SIZE -> mod (a - g_stack_array) 8 = 0 -> m64[a] = m0[a] /\ w_ob[m64[a]] }; assert { s0 = g_stack + 5 }; assert { let p = g_stack_array in w_ob[m64[p + 8 * g_stack]] /\ w_ob[m64[p + 8 * (g_stack + 1)]] /\ w_ob[m64[p + 8 * (g_stack + 2)]] /\ w_ob[m64[p + 8 * (g_stack + 3)]] /\ w_ob[m64[p + 8 * (g_stack + 4)]] }; assert { forall a. g_stack_array + 8 * g_stack <= a < g_stack_array + 8 * s0 -> mod (a - g_stack_array) 8 = 0 -> w_ob[m64[a]] }
  hook[before:gc_pop_frame] five g_stack_array g_stack
