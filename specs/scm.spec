# ---------------------------------------------------------------- the interpreter
extern assert_msg
  file lib/mes/assert_msg.c
  params ok_ msg
  uses scm.Scm
  writes -
  raises Stop: ok_ = 0
  ensures ok_ <> 0
extern assert_room
  params ok_ msg
  uses scm.Scm
  writes -
  raises Full: ok_ = 0
  ensures ok_ <> 0
extern error
  file src/core.c
  params key x
  writes -
  raises Stop: true
  ensures false
extern cast_voidp_to_charp
  params i
  writes -
  ensures result = i
extern cast_scmp_to_long
  params i
  writes -
  ensures result = i

macro ARENA
  uses mem.Str scm.Scm
  requires[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  reads g_cells g_ARENA_SIZE vs v8
endmacro
# g_free and the fields change, the arena stays well-formed
macro ALLOCS
  @ARENA
  writes g_free f_type f_car f_cdr
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[arena] old g_free <= g_free
endmacro
macro ONECELL
  ensures[fresh] result = old g_free /\ g_free = old g_free + 24
endmacro

fn alloc
  file src/gc.c
  @ARENA
  callas assert_msg assert_room
  writes g_free
  ensures[fresh] result = old g_free
  ensures[size] g_free = old g_free + 24 * n /\ 0 <= n
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  raises[room] Full: n < 0 \/ old g_free + 24 * n > g_cells + 24 * g_ARENA_SIZE

fn make_cell
  file src/gc.c
  params typ car cdr
  @ALLOCS
  callas assert_msg assert_room
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- typ] /\ f_car = (old f_car)[result <- car] /\ f_cdr = (old f_cdr)[result <- cdr]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_pointer_cell
  file src/gc.c
  params typ car cdr
  @ALLOCS
  callas assert_msg assert_room
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- typ] /\ f_car = (old f_car)[result <- car] /\ f_cdr = (old f_cdr)[result <- cdr]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_value_cell
  file src/gc.c
  params typ car cdr
  @ALLOCS
  callas assert_msg assert_room
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- typ] /\ f_car = (old f_car)[result <- car] /\ f_cdr = (old f_cdr)[result <- cdr]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn cons
  file src/gc.c
  params x y
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tPAIR] /\ f_car = (old f_car)[result <- x] /\ f_cdr = (old f_cdr)[result <- y]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_char
  file src/gc.c
  params n
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tCHAR] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- n]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_number
  file src/gc.c
  params n
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- n]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_ref
  file src/gc.c
  params x
  @ALLOCS
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tREF] /\ f_car = (old f_car)[result <- x] /\ f_cdr = (old f_cdr)[result <- 0]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_macro
  file src/gc.c
  params name x
  @ALLOCS
  requires vs[name]
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tMACRO] /\ f_car = (old f_car)[result <- x] /\ f_cdr = (old f_cdr)[result <- (old f_cdr)[name]]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn make_continuation
  file src/gc.c
  params n
  @ALLOCS
  reads g_stack
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tCONTINUATION] /\ f_car = (old f_car)[result <- n] /\ f_cdr = (old f_cdr)[result <- g_stack]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

fn cell_bytes
  file src/gc.c
  params x
  uses scm.Scm
  writes -
  ensures result = x + 16

fn cell_ref
  file src/gc.c
  params cell index
  uses scm.Scm
  writes -
  ensures result = cell + 24 * index

fn bytes_cells
  file src/gc.c
  params length
  uses scm.Scm
  requires length <= 9223372036854775807
  writes -
  ensures result = bcells length

fn make_bytes
  file src/gc.c
  params s length
  @ARENA
  writes g_free f_type f_car m8
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  requires[valid] range v8 s length /\ (length > 0 -> 0 < s)
  requires length <= 1000000000000
  requires disjoint s length g_free (g_cells + 24 * g_ARENA_SIZE - g_free)
  ensures[fresh] result = old g_free /\ g_free = old g_free + 24 * bcells length
  ensures[contents] f_type = (old f_type)[result <- tBYTES] /\ f_car = (old f_car)[result <- length] 
  ensures[bytes] forall a. result + 16 <= a < result + 16 + length -> m8[a] = (old m8)[s + (a - result - 16)]
  ensures[inside] forall a. not (result + 16 <= a < result + 16 + max 1 length) -> m8[a] = (old m8)[a]
  ensures[large-enough] result + 16 + max 1 length <= g_free
  raises[room] Full: old g_free + 24 * bcells length > g_cells + 24 * g_ARENA_SIZE
