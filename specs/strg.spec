# ---------------------------------------------------------------- strings
macro STRARENA
  @ARENA
  reads g_MAX_STRING
  requires[limit] 0 < g_MAX_STRING <= 1000000000
endmacro
# the shared text buffer: room for one character too many and a terminator, outside the arena
macro BUF
  reads g_buf
  requires[buffer] 0 < g_buf /\ range v8 g_buf (g_MAX_STRING + 2) /\ disjoint g_buf (g_MAX_STRING + 2) g_cells (24 * g_ARENA_SIZE)
endmacro

fn assert_max_string
  file src/string.c
  params i msg string
  uses mem.Str scm.Scm
  callas itoa diag_itoa
  requires 0 < g_MAX_STRING
  requires i > g_MAX_STRING -> 0 < string /\ range v8 string g_MAX_STRING
  writes m8
  reads cell_symbol_system_error cell_f
  ensures[short] i <= g_MAX_STRING /\ m8 = old m8
  raises[only-when-too-long] Stop: i > g_MAX_STRING

fn make_string
  file src/gc.c
  params s length
  @STRARENA
  requires[valid] 0 < s /\ 0 <= length <= 1000000000000 /\ range v8 s (length + 1)
  requires disjoint s (length + 1) g_free (g_cells + 24 * g_ARENA_SIZE - g_free)
  writes g_free f_type f_car f_cdr m8
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[fresh] result = old g_free /\ g_free = old g_free + 24 + 24 * bcells (length + 1)
  ensures[short] length <= g_MAX_STRING
  ensures[string] f_type[result] = tSTRING /\ f_car[result] = length /\ f_cdr[result] = result + 24 /\ f_type[result + 24] = tBYTES /\ f_car[result + 24] = length + 1
  ensures[bytes] forall a. result + 40 <= a < result + 40 + length + 1 -> m8[a] = (old m8)[s + (a - result - 40)]
  ensures[well-formed] wstr f_car f_cdr v8 result
  @KEPT
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  uses scm.Strg
  raises[only-when-too-long] Stop: length > g_MAX_STRING
  @STOPKEPT
  raises[room] Full: old g_free + 24 + 24 * bcells (length + 1) > g_cells + 24 * g_ARENA_SIZE

fn make_string0
  file src/gc.c
  params s
  @STRARENA
  uses scm.Strg
  requires[valid] vstr m8 v8 s /\ slen m8 s <= 1000000000
  requires disjoint s (slen m8 s + 1) g_free (g_cells + 24 * g_ARENA_SIZE - g_free)
  writes g_free f_type f_car f_cdr m8
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[fresh] result = old g_free /\ old g_free <= g_free
  ensures[string] f_type[result] = tSTRING /\ f_car[result] = slen (old m8) s /\ f_cdr[result] = result + 24 /\ f_type[result + 24] = tBYTES
  ensures[bytes] forall a. result + 40 <= a < result + 40 + slen (old m8) s + 1 -> m8[a] = (old m8)[s + (a - result - 40)]
  ensures[well-formed] wstr f_car f_cdr v8 result
  @KEPT
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  raises[only-when-too-long] Stop: slen (old m8) s > g_MAX_STRING
  @STOPKEPT
  raises[room] Full: old g_free + 24 + 24 * bcells (slen (old m8) s + 1) > g_cells + 24 * g_ARENA_SIZE

fn make_string_port
  file src/gc.c
  params x
  uses scm.List
  @ALLOCS
  ghost n: int
  requires[ports] 0 <= n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free g_ports n
  reads cell_nil g_ports
  ghostarg[length__] n
  @ONECELL
  ensures[contents] f_type = (old f_type)[result <- tPORT] /\ f_car = (old f_car)[result <- - n - 2] /\ f_cdr = (old f_cdr)[result <- x]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE

macro RETYPE
  @ALLOCS
  requires vs[%1]
  @ONECELL
  ensures[same-name] f_type = (old f_type)[result <- %2] /\ f_car = (old f_car)[result <- (old f_car)[%1]] /\ f_cdr = (old f_cdr)[result <- (old f_cdr)[%1]]
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE
endmacro
fn symbol_to_string
  file src/string.c
  params symbol
  @RETYPE symbol; tSTRING
fn symbol_to_keyword
  file src/string.c
  params symbol
  @RETYPE symbol; tKEYWORD
fn keyword_to_string
  file src/string.c
  params keyword
  @RETYPE keyword; tSTRING

# a fresh list of the characters of the %2 bytes at %1
macro CHARS
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[length] nth f_cdr result (%2) = cell_nil
  ensures[fresh] forall k. 0 <= k < %2 -> old g_free <= nth f_cdr result k < g_free /\ f_type[nth f_cdr result k] = tPAIR /\ old g_free <= f_car[nth f_cdr result k] < g_free
  ensures[characters] forall k. 0 <= k < %2 -> f_type[f_car[nth f_cdr result k]] = tCHAR /\ f_cdr[f_car[nth f_cdr result k]] = u8 m8[%1 + k]
  @KEPT
  raises Full: true
endmacro
fn bytes_to_list
  file src/string.c
  params s i
  uses scm.List
  @ALLOCS
  requires[valid] 0 <= i <= 1000000000000 /\ range v8 s i
  requires obj cell_nil g_cells g_free
  reads m8 cell_nil
  @CHARS s; i
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
    inv[position] 0 <= i <= i_0 /\ g_free = g_free_in + 48 * (i_0 - i)
    inv[cells] forall k. 0 <= k < i_0 - i -> nth f_cdr p k = g_free_in + 48 * (i_0 - i - 1 - k) + 24
    inv[end] nth f_cdr p (i_0 - i) = cell_nil
    inv[characters] forall k. 0 <= k < i_0 - i -> f_type[nth f_cdr p k] = tPAIR /\ f_car[nth f_cdr p k] = nth f_cdr p k - 24
    inv[characters] forall k. 0 <= k < i_0 - i -> f_type[nth f_cdr p k - 24] = tCHAR /\ f_cdr[nth f_cdr p k - 24] = u8 m8[s + i + k]
    inv[existing-kept] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ f_cdr[a] = f_cdr_in[a]
    end nth_push (pure { f_cdr at L0 }) f_cdr (pure { p at L0 }) p (i_0 - i - 1)
    variant i

fn cstring_to_list
  file src/string.c
  params s
  uses scm.List
  @ALLOCS
  requires[valid] vstr m8 v8 s /\ slen m8 s <= 1000000000
  requires obj cell_nil g_cells g_free
  reads m8 cell_nil
  @CHARS s; slen m8 s

fn string_to_list
  file src/string.c
  params string
  uses scm.List scm.Strg
  @ALLOCS
  requires[valid] vs[string] /\ wstr f_car f_cdr v8 string
  requires obj cell_nil g_cells g_free
  reads m8 cell_nil
  @CHARS (old f_cdr)[string] + 16; (old f_car)[string]

fn string_length
  file src/string.c
  params string
  @ALLOCS
  requires vs[string]
  @ONECELL
  ensures[checked] (old f_type)[string] = tSTRING
  ensures[length] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- (old f_car)[string]]
  raises[only-for-wrong-type] Stop: (old f_type)[string] <> tSTRING
  raises[room] Full: old g_free + 24 > g_cells + 24 * g_ARENA_SIZE
  @STOPKEPT

fn string_ref
  file src/string.c
  params str k
  uses scm.Strg
  @STRARENA
  requires vs[str] /\ vs[k]
  requires[well-formed] f_type[str] = tSTRING -> wstr f_car f_cdr v8 str
  writes g_free f_type f_car f_cdr m8
  reads cell_symbol_system_error
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[checked] (old f_type)[str] = tSTRING /\ (old f_type)[k] = tNUMBER
  ensures[in-range] 0 <= (old f_cdr)[k] < (old f_car)[str]
  @ONECELL
  ensures[character] f_type = (old f_type)[result <- tCHAR] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- u8 m8[(old f_cdr)[str] + 16 + (old f_cdr)[k]]]
  ensures m8 = old m8
  raises[only-for-bad-arguments] Stop: not ((old f_type)[str] = tSTRING /\ (old f_type)[k] = tNUMBER /\ 0 <= (old f_cdr)[k] < (old f_car)[str])
  raises Full: true
  @STOPKEPT

fn list_to_cstring
  file src/string.c
  params list size
  uses scm.List
  @STRARENA
  @BUF
  ghost n: int
  requires[pairs] 0 <= n <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free list n
  requires[end] nth f_cdr list n = cell_nil \/ nth f_cdr list n <> cell_nil /\ vs[nth f_cdr list n] /\ f_type[nth f_cdr list n] <> tPAIR
  requires[elements] forall k. 0 <= k < n -> vs[f_car[nth f_cdr list k]]
  requires v64[size]
  reads cell_nil
  writes m8 m64 g_free f_type f_car f_cdr
  ensures[proper] nth (old f_cdr) list n = cell_nil
  ensures[length] m64[size] = n /\ n <= g_MAX_STRING + 1 /\ result = g_buf
  ensures[characters] (forall a. g_buf <= a < g_buf + n -> m8[a] = cast_s8 f_cdr[f_car[nth f_cdr list (a - g_buf)]]) /\ m8[g_buf + n] = 0
  ensures[inside] forall a. not (g_buf <= a < g_buf + n + 1) -> m8[a] = (old m8)[a]
  ensures[inside] m64 = (old m64)[size <- n]
  @SAME
  raises[only-for-bad-arguments] Stop: n > g_MAX_STRING \/ nth (old f_cdr) list n <> cell_nil
  raises Full: nth (old f_cdr) list n <> cell_nil
  @STOPKEPT
  loop
    inv[position] 0 <= i <= n /\ list = nth f_cdr_in list_0 i /\ i <= g_MAX_STRING + 1
    inv[unchanged] f_type = f_type_in /\ f_car = f_car_in /\ f_cdr = f_cdr_in /\ g_free = g_free_in /\ m64 = m64_in
    inv[characters] forall a. g_buf <= a < g_buf + i -> m8[a] = cast_s8 f_cdr[f_car[nth f_cdr list_0 (a - g_buf)]]
    inv[inside] forall a. not (g_buf <= a < g_buf + i) -> m8[a] = m8_in[a]
    start nth_step f_cdr_in list_0 i
    variant n - i

fn list_to_string
  file src/string.c
  params list
  uses scm.List scm.Strg
  @STRARENA
  @BUF
  ghost n: int
  ghostarg[list_to_cstring] n
  requires[pairs] 0 <= n <= 1000000000000000 /\ chain f_type f_cdr cell_nil g_cells g_free list n
  requires[end] nth f_cdr list n = cell_nil \/ nth f_cdr list n <> cell_nil /\ vs[nth f_cdr list n] /\ f_type[nth f_cdr list n] <> tPAIR
  requires[elements] forall k. 0 <= k < n -> vs[f_car[nth f_cdr list k]]
  reads cell_nil
  writes m8 m64 v64 g_free f_type f_car f_cdr
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[proper] nth (old f_cdr) list n = cell_nil
  ensures[fresh] result = old g_free
  ensures[string] f_type[result] = tSTRING /\ f_car[result] = n /\ wstr f_car f_cdr v8 result /\ f_cdr[result] = result + 24
  ensures[characters] forall a. result + 40 <= a < result + 40 + n -> m8[a] = cast_s8 (old f_cdr)[(old f_car)[nth (old f_cdr) list (a - result - 40)]]
  ensures[terminated] m8[result + 40 + n] = 0
  @KEPT
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> not (g_buf <= a < g_buf + n + 1) -> m8[a] = (old m8)[a]
  raises[only-for-bad-arguments] Stop: n > g_MAX_STRING \/ nth (old f_cdr) list n <> cell_nil
  raises Full: true

fn string_append
  file src/string.c
  params x
  uses scm.Strg scm.Cat
  @STRARENA
  @BUF
  @LIST x
  requires[elements] forall k. 0 <= k < n -> vs[f_car[nth f_cdr x k]] /\ (f_type[f_car[nth f_cdr x k]] = tSTRING -> wstr f_car f_cdr v8 f_car[nth f_cdr x k] /\ disjoint (f_cdr[f_car[nth f_cdr x k]] + 16) (f_car[f_car[nth f_cdr x k]] + 1) g_buf (g_MAX_STRING + 2) /\ m8[f_cdr[f_car[nth f_cdr x k]] + 16 + f_car[f_car[nth f_cdr x k]]] = 0)
  writes m8 g_free f_type f_car f_cdr
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[checked] forall k. 0 <= k < n -> (old f_type)[(old f_car)[nth (old f_cdr) x k]] = tSTRING
  ensures[fresh] result = old g_free
  ensures[length] f_type[result] = tSTRING /\ f_car[result] = tot (old f_car) (old f_cdr) x n /\ wstr f_car f_cdr v8 result /\ f_cdr[result] = result + 24
  ensures[characters] catted (old f_car) (old f_cdr) (old m8) m8 x n (result + 40)
  ensures[terminated] m8[result + 40 + f_car[result]] = 0
  @KEPT
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> not (g_buf <= a < g_buf + g_MAX_STRING + 1) -> m8[a] = (old m8)[a]
  raises[only-for-bad-arguments] Stop: exists k. 0 <= k < n /\ ((old f_type)[(old f_car)[nth (old f_cdr) x k]] <> tSTRING \/ tot (old f_car) (old f_cdr) x (k + 1) > g_MAX_STRING)
  raises Full: true
  pre let ghost ref i = 0 in
  pre let ghost ref mb = m8 in
  hook[before:make_string] mb <- m8
  post catted_shift f_car_in f_cdr_in m8_in mb m8 x_0 n g_buf (result_ + 40)
  loop
    inv[position] 0 <= i <= n /\ x = nth f_cdr x_0 i
    inv[size] size = tot f_car f_cdr x_0 i /\ 0 <= size <= g_MAX_STRING /\ p = g_buf + size
    inv[checked] forall k. 0 <= k < i -> f_type[f_car[nth f_cdr x_0 k]] = tSTRING
    inv[within] forall k. 0 <= k < i -> 0 <= tot f_car f_cdr x_0 k /\ tot f_car f_cdr x_0 k + f_car[f_car[nth f_cdr x_0 k]] <= size
    inv[characters] catted f_car f_cdr m8_in m8 x_0 i g_buf
    inv[terminated] m8[g_buf + size] = 0
    inv[inside] forall a. not (g_buf <= a < g_buf + g_MAX_STRING + 1) -> m8[a] = m8_in[a]
    start nth_step f_cdr x_0 i
    start tot_step f_car f_cdr x_0 i
    end catted_push f_car f_cdr m8_in (pure { m8 at L0 }) m8 x_0 i g_buf
    end i <- i + 1
    variant n - i
