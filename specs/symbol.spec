# ---------------------------------------------------------------- symbols
macro SYMTAB
  uses scm.Strg scm.Equal scm.Hash scm.Vec scm.List
  @STRARENA
  ghost len: map int int
  requires[symbols] symtab vs v8 f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free g_symbols len
  requires f_type[cell_f] <> tPAIR /\ cell_t <> cell_f /\ vs[cell_f] /\ 0 <= cell_f < g_free
  requires[nil] f_type[cell_nil] <> tPAIR /\ cell_nil < g_free /\ cell_f < g_free
  requires[room] forall i. 0 <= i < hsize f_cdr g_symbols -> len[i] < 1000000000000
  reads cell_nil m8 cell_t cell_f cell_unspecified g_symbols
  writes g_free f_type f_car f_cdr
  requires[string] sname vs v8 f_type f_car f_cdr m8 g_free string
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  raises Full: true
  raises[never] Stop: false
endmacro
fn make_symbol
  file src/string.c
  params string
  @SYMTAB
  ghostarg[hash_set_x] len
  ensures[fresh] result = old g_free /\ f_type[result] = tSYMBOL
  ensures[name] f_car[result] = (old f_car)[string] /\ f_cdr[result] = (old f_cdr)[string]
  ensures[name] str_eq f_car f_cdr m8 string result
  ensures[string-kept] f_type[string] = tSTRING /\ f_car[string] = (old f_car)[string] /\ f_cdr[string] = (old f_cdr)[string]
  ensures[arena] old g_free <= g_free
  ensures[added] added vs v8 (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr m8 cell_nil cell_f g_cells (old g_free) g_free g_symbols len (hidx m8 ((old f_cdr)[string] + 16) (hsize (old f_cdr) g_symbols)) string result
  pre let ghost ref free_ = 0 in let ghost ref ty_ = f_type in let ghost ref car_ = f_car in let ghost ref cdr_ = f_cdr in
  hook[before:hash_set_x] free_ <- g_free; ty_ <- f_type; car_ <- f_car; cdr_ <- f_cdr
  hook[before:hash_set_x] symtab_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free_in g_free g_symbols len
  hook[before:hash_set_x] assert { htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free g_symbols len }
  hook[before:hash_set_x] assert { sname vs v8 f_type f_car f_cdr m8 g_free string /\ f_cdr[string] = f_cdr_in[string] /\ f_car[string] = f_car_in[string] }
  pre let ghost i = pure { hidx m8 (f_cdr[string] + 16) (hsize f_cdr g_symbols) } in
  hook[before:hash_set_x] assert { i = hidx m8 (f_cdr[string] + 16) (hsize f_cdr g_symbols) /\ 0 <= i < hsize f_cdr g_symbols }
  hook[before:hash_set_x] assert { hslot f_car f_cdr g_symbols i = hslot f_car_in f_cdr_in g_symbols i }
  hook[before:hash_set_x] htab_use vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free g_symbols len i
  hook[before:hash_set_x] assert { string <> hslot f_car f_cdr g_symbols i /\ x <> hslot f_car f_cdr g_symbols i }
  hook[after:hash_set_x] assert { f_type[string] = tSTRING /\ f_car[string] = f_car_in[string] /\ f_cdr[string] = f_cdr_in[string] }
  hook[after:hash_set_x] assert { f_type[x] = tSYMBOL /\ f_car[x] = f_car_in[string] /\ f_cdr[x] = f_cdr_in[string] }
  hook[after:hash_set_x] str_as f_car f_cdr f_car f_cdr m8 string string string x
  hook[after:hash_set_x] assert { str_eq f_car f_cdr m8 string x }
  hook[after:hash_set_x] assert { named f_type f_car f_cdr m8 g_free i (hsize f_cdr g_symbols) string x }
  post symtab_push vs v8 ty_ car_ cdr_ f_type f_car f_cdr m8 cell_nil cell_f g_cells free_ g_free g_symbols len i string x (pure { f_car[hslot car_ cdr_ g_symbols i] })
  post assert { forall y r. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> not str_eq f_car_in f_cdr_in m8 y string -> interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len y r -> interned ty_ car_ cdr_ m8 g_symbols cell_f len y r /\ not str_eq car_ cdr_ m8 y string }
  post assert { forall a. a < g_free_in -> a <> hslot f_car_in f_cdr_in g_symbols i -> f_type[a] = ty_[a] /\ f_car[a] = car_[a] /\ f_cdr[a] = cdr_[a] }
  post assert { symtab vs v8 f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free g_symbols len[i <- len[i] + 1] /\ hsize f_cdr g_symbols = hsize f_cdr_in g_symbols }
  post assert { forall y. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> str_eq f_car_in f_cdr_in m8 y string -> sname vs v8 ty_ car_ cdr_ m8 free_ y /\ str_eq car_ cdr_ m8 y string }
  post assert { forall y. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> str_eq f_car_in f_cdr_in m8 y string -> interned f_type f_car f_cdr m8 g_symbols cell_f len[i <- len[i] + 1] y x }
  post assert { forall y r. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> not str_eq f_car_in f_cdr_in m8 y string -> interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len y r -> interned f_type f_car f_cdr m8 g_symbols cell_f len[i <- len[i] + 1] y r }

fn string_to_symbol
  file src/string.c
  params string
  @SYMTAB
  ghostarg[hash_ref] len
  ghostarg[make_symbol] len
  ensures[symbol] (f_type[result] = tSYMBOL \/ f_type[result] = tSPECIAL) /\ result <> cell_f
  ensures[name] str_eq f_car f_cdr m8 string result
  ensures[the-symbol-of-that-name] forall r. interned (old f_type) (old f_car) (old f_cdr) m8 g_symbols cell_f len string r ->
  |  result = r /\ symtab vs v8 f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free g_symbols len /\ agree (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr (old g_free)
  |  /\ forall x q. sname vs v8 (old f_type) (old f_car) (old f_cdr) m8 (old g_free) x -> interned (old f_type) (old f_car) (old f_cdr) m8 g_symbols cell_f len x q -> interned f_type f_car f_cdr m8 g_symbols cell_f len x q
  ensures[a-new-symbol] (forall r. not interned (old f_type) (old f_car) (old f_cdr) m8 g_symbols cell_f len string r) ->
  |  result >= old g_free /\ added vs v8 (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr m8 cell_nil cell_f g_cells (old g_free) g_free g_symbols len (hidx m8 ((old f_cdr)[string] + 16) (hsize (old f_cdr) g_symbols)) string result
  pre let ghost i = pure { hidx m8 (f_cdr[string] + 16) (hsize f_cdr g_symbols) } in
  pre let ghost b = pure { hbucket f_car f_cdr g_symbols i } in
  pre symtab_use vs v8 f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free g_symbols len i
  pre htab_use vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free g_symbols len i
  pre let ghost ref free_ = 0 in let ghost ref ty_ = f_type in let ghost ref car_ = f_car in let ghost ref cdr_ = f_cdr in
  hook[after:hash_ref] symtab_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free_in g_free g_symbols len
  hook[after:hash_ref] free_ <- g_free; ty_ <- f_type; car_ <- f_car; cdr_ <- f_cdr
  hook[after:hash_ref] assert { forall k. first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k -> $r = valat f_car_in f_cdr_in b k }
  hook[after:hash_ref] assert { no_string f_type_in f_car_in f_cdr_in m8 b len[i] string -> $r = cell_f }
  hook[after:hash_ref] assert { forall r k. found f_type_in f_car_in f_cdr_in m8 g_symbols len string k r -> first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k /\ r = $r }
  hook[after:hash_ref] assert { forall r. interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len string r -> r = $r /\ $r <> cell_f }
  hook[after:hash_ref] assert { $r <> cell_f -> exists k. first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k /\ $r = valat f_car_in f_cdr_in b k }
  hook[after:hash_ref] assert { forall k r. first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k -> r = valat f_car_in f_cdr_in b k -> found f_type_in f_car_in f_cdr_in m8 g_symbols len string k r }
  hook[after:hash_ref] assert { $r <> cell_f -> exists k. found f_type_in f_car_in f_cdr_in m8 g_symbols len string k $r }
  hook[after:hash_ref] assert { $r <> cell_f -> interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len string $r }
  hook[after:hash_ref] assert { forall k. 0 <= k < len[i] -> let key = keyat f_car_in f_cdr_in b k in let v = valat f_car_in f_cdr_in b k in named f_type_in f_car_in f_cdr_in m8 g_free_in i (hsize f_cdr_in g_symbols) key v }
  hook[after:hash_ref] assert { forall k. first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k -> let key = keyat f_car_in f_cdr_in b k in let v = valat f_car_in f_cdr_in b k in str_eq f_car_in f_cdr_in m8 string key /\ f_car_in[v] = f_car_in[key] /\ f_cdr_in[v] = f_cdr_in[key] }
  hook[after:hash_ref] str_shared f_car_in f_cdr_in m8
  hook[after:hash_ref] assert { forall k. first_string f_type_in f_car_in f_cdr_in m8 b len[i] string k -> let v = valat f_car_in f_cdr_in b k in str_eq f_car_in f_cdr_in m8 string v /\ v < g_free_in /\ (f_type_in[v] = tSYMBOL \/ f_type_in[v] = tSPECIAL) }
  hook[after:hash_ref] assert { $r <> cell_f -> ($r < g_free_in /\ (f_type_in[$r] = tSYMBOL \/ f_type_in[$r] = tSPECIAL) /\ str_eq f_car_in f_cdr_in m8 string $r) }
  hook[after:hash_ref] assert { $r <> cell_f -> f_car[$r] = f_car_in[$r] /\ f_cdr[$r] = f_cdr_in[$r] /\ f_car[string] = f_car_in[string] /\ f_cdr[string] = f_cdr_in[string] }
  hook[after:hash_ref] if $r <> cell_f then str_as f_car_in f_cdr_in f_car f_cdr m8 string $r string $r
  hook[after:hash_ref] assert { $r <> cell_f -> str_eq f_car f_cdr m8 string $r }
  hook[after:make_symbol] assert { forall y r. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> not str_eq f_car_in f_cdr_in m8 y string -> interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len y r -> interned ty_ car_ cdr_ m8 g_symbols cell_f len y r /\ not str_eq car_ cdr_ m8 y string }
  hook[after:make_symbol] assert { hslot car_ cdr_ g_symbols i = hslot f_car_in f_cdr_in g_symbols i }
  hook[after:make_symbol] assert { forall a. a < g_free_in -> a <> hslot f_car_in f_cdr_in g_symbols i -> f_type[a] = ty_[a] /\ f_car[a] = car_[a] /\ f_cdr[a] = cdr_[a] }
  hook[after:make_symbol] assert { symtab vs v8 f_type f_car f_cdr m8 cell_nil cell_f g_cells g_free g_symbols len[i <- len[i] + 1] /\ hsize f_cdr g_symbols = hsize f_cdr_in g_symbols }
  hook[after:make_symbol] assert { forall y. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> str_eq f_car_in f_cdr_in m8 y string -> sname vs v8 ty_ car_ cdr_ m8 free_ y /\ str_eq car_ cdr_ m8 y string }
  hook[after:make_symbol] assert { forall y. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> str_eq f_car_in f_cdr_in m8 y string -> interned f_type f_car f_cdr m8 g_symbols cell_f len[i <- len[i] + 1] y $r }
  hook[after:make_symbol] assert { forall y r. sname vs v8 f_type_in f_car_in f_cdr_in m8 g_free_in y -> not str_eq f_car_in f_cdr_in m8 y string -> interned f_type_in f_car_in f_cdr_in m8 g_symbols cell_f len y r -> interned f_type f_car f_cdr m8 g_symbols cell_f len[i <- len[i] + 1] y r }
