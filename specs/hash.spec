# ---------------------------------------------------------------- hash tables
extern display_error_
  file src/display.c
  params x
  writes -
  note diagnostic output before an error is reported

fn hash_cstring
  file src/hash.c
  params s size
  uses mem.Str scm.Scm scm.Hash
  requires[valid] v8[s] /\ (m8[s] <> 0 -> v8[s + 1])
  requires[size] 0 < size
  reads m8 v8
  writes -
  ensures[bucket] result = hidx m8 s size /\ 0 <= result < size
  raises[never] Stop: false
  pre hidx_is m8 s size

macro NAMED
  requires vs[%1] /\ cell_t <> cell_f
  requires[well-formed] f_type[%1] = tSTRING \/ f_type[%1] = tKEYWORD \/ f_type[%1] = tSYMBOL \/ f_type[%1] = tSPECIAL -> wstr f_car f_cdr v8 %1 /\ m8[f_cdr[%1] + 16 + f_car[%1]] = 0
endmacro
fn hashq_
  file src/hash.c
  params x size
  uses scm.Strg scm.Hash
  @STRARENA
  @NAMED x
  requires[size] 0 < size
  reads cell_symbol_system_error
  writes g_free f_type f_car f_cdr m8
  ensures[checked] (old f_type)[x] = tSYMBOL \/ (old f_type)[x] = tSPECIAL
  ensures[bucket] result = hidx m8 (f_cdr[x] + 16) size /\ 0 <= result < size
  ensures m8 = old m8
  @SAME
  raises[only-for-no-symbol] Stop: (old f_type)[x] <> tSYMBOL /\ (old f_type)[x] <> tSPECIAL
  raises[only-for-no-symbol] Full: (old f_type)[x] <> tSYMBOL /\ (old f_type)[x] <> tSPECIAL
  @STOPKEPT

fn hash_
  file src/hash.c
  params x size
  uses mem.Str scm.Scm scm.Strg scm.Hash
  @NAMED x
  requires[size] 0 < size
  reads m8 v8 f_type f_car f_cdr
  writes -
  ensures[checked] f_type[x] = tSTRING
  ensures[bucket] result = hidx m8 (f_cdr[x] + 16) size /\ 0 <= result < size
  raises[only-for-no-string] Stop: f_type[x] <> tSTRING

macro HTAB
  uses scm.Strg scm.Equal scm.Hash scm.Vec scm.List
  @STRARENA
  ghost len: map int int
  requires[table] htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free table len
  requires f_type[cell_f] <> tPAIR /\ cell_t <> cell_f /\ vs[cell_f] /\ 0 <= cell_f < g_free
  reads cell_nil m8
  writes g_free f_type f_car f_cdr
endmacro
macro KEYARG
  @NAMED key
  requires key < g_free /\ 0 <= f_type[key] <= 17 /\ (f_type[key] = tSTRING \/ f_type[key] = tKEYWORD \/ f_type[key] = tSYMBOL \/ f_type[key] = tSPECIAL -> f_cdr[key] < g_free /\ f_type[f_cdr[key]] = tBYTES)
endmacro
macro LOOKUP
  @HTAB
  ensures[arena] old g_free <= g_free
  @KEYARG
  requires vs[dflt] /\ dflt < g_free
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @KEPT
  raises Full: true
endmacro
# the steps from the table to the bucket
macro STEPS
  pre assert { f_type[f_cdr[table] + 72] = tNUMBER /\ f_type[f_cdr[table] + 96] = tREF /\ f_type[f_car[f_cdr[table] + 96]] = tVECTOR }
  pre assert { f_cdr[table] + 96 < g_free /\ f_car[f_cdr[table] + 96] < g_free }
  hook[before:%1] assert { size = hsize f_cdr_in table }
  hook[before:struct_ref_#1] assert { let a = f_cdr_in[table] + 96 in a < g_free_in /\ f_cdr[table] = f_cdr_in[table] /\ f_type[a] = tREF /\ f_car[a] = f_car_in[a] /\ f_type[f_car_in[a]] = tVECTOR }
  hook[before:vector_ref_] assert { buckets = f_car_in[f_cdr_in[table] + 96] }
  hook[before:vector_ref_] slots_frame vs f_type_in f_car_in f_cdr_in f_type f_car f_cdr g_cells g_free_in g_free buckets
  hook[before:vector_ref_] assert { f_type[buckets] = tVECTOR /\ f_cdr[buckets] = f_cdr_in[buckets] /\ f_cdr[buckets] + 24 * f_car[buckets] <= g_free_in }
  hook[after:%1] assert { f_cdr[key] = f_cdr_in[key] }
  hook[after:%1] assert { $r = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) /\ 0 <= $r < hsize f_cdr_in table }
  hook[after:%1] assert { cast_u32 $r = $r }
  hook[before:vector_ref_] assert { hash = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) /\ 0 <= hash < hsize f_cdr_in table }
  hook[before:vector_ref_] htab_use vs v8 f_type_in f_car_in f_cdr_in cell_nil cell_f g_cells g_free_in table len hash
  hook[before:vector_ref_] assert { 0 <= hash < f_car[buckets] /\ hslot f_car_in f_cdr_in table hash = f_cdr[buckets] + 24 * hash }
  hook[before:vector_ref_] assert { f_cdr[buckets] + 24 * hash < g_free_in /\ hbucket f_car_in f_cdr_in table hash < g_free_in }
  hook[before:vector_ref_] assert { not imm f_type[hbucket f_car_in f_cdr_in table hash] }
  hook[before:vector_ref_] assert { hslot f_car_in f_cdr_in table hash < g_free_in }
  hook[before:vector_ref_] assert { f_type_in[hslot f_car_in f_cdr_in table hash] = tREF /\ f_car_in[hslot f_car_in f_cdr_in table hash] = hbucket f_car_in f_cdr_in table hash }
  hook[before:vector_ref_] assert { f_type[hslot f_car_in f_cdr_in table hash] = tREF /\ f_car[hslot f_car_in f_cdr_in table hash] = hbucket f_car_in f_cdr_in table hash }
  hook[before:vector_ref_] assert { let a = f_cdr[buckets] + 24 * hash in f_type[a] = tREF /\ f_car[a] = hbucket f_car_in f_cdr_in table hash }
  hook[after:vector_ref_] assert { $r = hbucket f_car_in f_cdr_in table hash }
endmacro
fn hash_ref
  file src/hash.c
  params table key dflt
  @LOOKUP
  ghostarg[assoc] len[hash]
  ghostarg[assoc] v8
  ghostarg[assoc] f_cdr
  ensures[checked] (old f_type)[key] = tSTRING
  ensures[last-stored] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  forall k. first_string (old f_type) (old f_car) (old f_cdr) m8 b len[i] key k -> result = valat (old f_car) (old f_cdr) b k
  ensures[default] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  no_string (old f_type) (old f_car) (old f_cdr) m8 b len[i] key -> result = if (old f_type)[dflt] = tPAIR then (old f_car)[dflt] else cell_f
  ensures[either] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  no_string (old f_type) (old f_car) (old f_cdr) m8 b len[i] key \/ exists k. first_string (old f_type) (old f_car) (old f_cdr) m8 b len[i] key k
  raises[only-for-no-string] Stop: (old f_type)[key] <> tSTRING
  @STEPS hash_
  hook[before:assoc] entries_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free bucket len[hash]
  hook[before:assoc] string_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr m8 g_free_in key
  post assert { hash = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) /\ bucket = hbucket f_car_in f_cdr_in table hash }
  post assert { forall k. 0 <= k < len[hash] -> x = f_car_in[nth f_cdr_in bucket k] -> f_cdr[x] = valat f_car_in f_cdr_in bucket k }
  post assert { x = cell_f -> no_string f_type_in f_car_in f_cdr_in m8 bucket len[hash] key }
  post assert { x <> cell_f -> exists k. first_string f_type_in f_car_in f_cdr_in m8 bucket len[hash] key k /\ x = f_car_in[nth f_cdr_in bucket k] }
  post assert { x <> cell_f -> not no_string f_type_in f_car_in f_cdr_in m8 bucket len[hash] key }
  post assert { x <> cell_f -> forall k. first_string f_type_in f_car_in f_cdr_in m8 bucket len[hash] key k -> x = f_car_in[nth f_cdr_in bucket k] }
  post assert { x = cell_f -> forall k. not first_string f_type_in f_car_in f_cdr_in m8 bucket len[hash] key k }

fn hashq_get_handle
  file src/hash.c
  params table key dflt
  @LOOKUP
  writes m8
  reads cell_symbol_system_error
  ghostarg[assq] len[hash]
  ensures[checked] (old f_type)[key] = tSYMBOL \/ (old f_type)[key] = tSPECIAL
  ensures[same-text] m8 = old m8
  ensures[last-stored] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  forall k. first_eq (old f_car) (old f_cdr) b len[i] key k -> result = (old f_car)[nth (old f_cdr) b k] /\ result <> cell_f /\ f_cdr[result] = valat (old f_car) (old f_cdr) b k
  ensures[default] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  no_eq (old f_car) (old f_cdr) b len[i] key -> result = if (old f_type)[dflt] = tPAIR then (old f_car)[dflt] else cell_f
  ensures[either] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  no_eq (old f_car) (old f_cdr) b len[i] key \/ exists k. first_eq (old f_car) (old f_cdr) b len[i] key k
  ensures[pair] result <> cell_f -> (old f_type)[dflt] <> tPAIR -> vs[result]
  raises[only-for-no-symbol] Stop: (old f_type)[key] <> tSYMBOL /\ (old f_type)[key] <> tSPECIAL
  @STOPKEPT
  @STEPS hashq_
  hook[before:assq] assert { bucket < g_free_in /\ f_type_in[bucket] = tPAIR }
  hook[before:assq] assert { entries vs v8 f_type_in f_car_in f_cdr_in cell_nil cell_f g_cells g_free_in bucket len[hash] }
  hook[before:assq] assert { agree f_type_in f_car_in f_cdr_in f_type f_car f_cdr g_free_in }
  hook[before:assq] entries_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free bucket len[hash]
  hook[before:assq] assert { f_type[key] = tSYMBOL \/ f_type[key] = tSPECIAL }
  hook[before:assq] assert { forall y. eqp f_type f_car f_cdr m8 key y <-> key = y }
  hook[after:assq] assert { $r <> cell_f -> exists k. first_eq f_car_in f_cdr_in bucket len[hash] key k /\ $r = f_car_in[nth f_cdr_in bucket k] }
  hook[after:assq] assert { $r = cell_f -> no_eq f_car_in f_cdr_in bucket len[hash] key }
  hook[after:assq] assert { forall k. 0 <= k < len[hash] -> let e = f_car_in[nth f_cdr_in bucket k] in e <> cell_f /\ f_cdr[e] = valat f_car_in f_cdr_in bucket k }
  post assert { hash = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) /\ bucket = hbucket f_car_in f_cdr_in table hash }
  post assert { no_eq f_car_in f_cdr_in bucket len[hash] key \/ exists k. first_eq f_car_in f_cdr_in bucket len[hash] key k /\ x = f_car_in[nth f_cdr_in bucket k] }

fn hashq_ref
  file src/hash.c
  params table key dflt
  @LOOKUP
  writes m8
  reads cell_symbol_system_error
  ghostarg[hashq_get_handle] len
  ensures[checked] (old f_type)[key] = tSYMBOL \/ (old f_type)[key] = tSPECIAL
  ensures[same-text] m8 = old m8
  ensures[last-stored] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  forall k. first_eq (old f_car) (old f_cdr) b len[i] key k -> result = valat (old f_car) (old f_cdr) b k
  ensures[default] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in
  |  no_eq (old f_car) (old f_cdr) b len[i] key -> result = if (old f_type)[dflt] = tPAIR then (old f_car)[dflt] else cell_f
  raises[only-for-no-symbol] Stop: (old f_type)[key] <> tSYMBOL /\ (old f_type)[key] <> tSPECIAL
  @STOPKEPT

macro STORE
  @HTAB
  requires vs[key] /\ key < g_free /\ vs[value] /\ 0 <= value < g_free
  requires[nil] f_type[cell_nil] <> tPAIR /\ cell_nil < g_free /\ cell_f < g_free
  reads cell_unspecified
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures result = value
  raises Full: true
endmacro
macro STORED
  ensures[stored] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in
  |  pushed (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr cell_nil (old g_free) table i key value f_car[hslot (old f_car) (old f_cdr) table i]
  ensures[table] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in
  |  htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free table len[i <- len[i] + 1] /\ hsize f_cdr table = hsize (old f_cdr) table
  ensures[found-first] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in
  |  hbucket f_car f_cdr table i = f_car[hslot (old f_car) (old f_cdr) table i] /\ keyat f_car f_cdr (hbucket f_car f_cdr table i) 0 = key /\ valat f_car f_cdr (hbucket f_car f_cdr table i) 0 = value
  ensures[others-follow] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in let b = hbucket (old f_car) (old f_cdr) table i in let c = hbucket f_car f_cdr table i in
  |  forall k. 1 <= k <= len[i] -> keyat f_car f_cdr c k = keyat (old f_car) (old f_cdr) b (k-1) /\ valat f_car f_cdr c k = valat (old f_car) (old f_cdr) b (k-1)
  ensures[other-buckets-kept] let i = hidx m8 ((old f_cdr)[key] + 16) (hsize (old f_cdr) table) in
  |  forall j. 0 <= j < hsize (old f_cdr) table -> j <> i -> hbucket f_car f_cdr table j = hbucket (old f_car) (old f_cdr) table j
endmacro
fn hash_set_x_
  file src/hash.c
  params table hash key value
  @STORE
  requires 0 <= hash < hsize f_cdr table
  ensures[arena] old g_free <= g_free
  ensures[stored] pushed (old f_type) (old f_car) (old f_cdr) f_type f_car f_cdr cell_nil (old g_free) table hash key value f_car[hslot (old f_car) (old f_cdr) table hash]
  ensures let p = f_car[hslot (old f_car) (old f_cdr) table hash] in obj p g_cells g_free /\ vs[p] /\ vs[f_car[p]] /\ 0 <= f_car[p] < g_free
  raises[never] Stop: false
  pre assert { f_type[f_cdr[table] + 96] = tREF /\ f_type[f_car[f_cdr[table] + 96]] = tVECTOR }
  pre assert { f_cdr[table] + 96 < g_free /\ f_car[f_cdr[table] + 96] < g_free }
  pre assert { let a = f_cdr_in[table] + 96 in a < g_free_in /\ a = f_cdr[table] + 24 * 4 /\ f_type[a] = tREF /\ f_car[a] = f_car_in[a] /\ not imm f_type[f_car_in[a]] }
  pre htab_use vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free table len hash
  hook[before:vector_ref_] assert { buckets = f_car_in[f_cdr_in[table] + 96] }
  hook[before:vector_ref_] slots_frame vs f_type_in f_car_in f_cdr_in f_type f_car f_cdr g_cells g_free_in g_free buckets
  hook[before:vector_ref_] assert { let s = hslot f_car_in f_cdr_in table hash in s < g_free_in /\ f_type_in[s] = tREF /\ f_car_in[s] = hbucket f_car_in f_cdr_in table hash /\ hbucket f_car_in f_cdr_in table hash < g_free_in }
  hook[before:vector_ref_] assert { let s = hslot f_car_in f_cdr_in table hash in s = f_cdr[buckets] + 24 * hash /\ f_type[s] = tREF /\ f_car[s] = hbucket f_car_in f_cdr_in table hash /\ not imm f_type[f_car[s]] }
  hook[after:vector_ref_] assert { hslot f_car_in f_cdr_in table hash = f_cdr_in[buckets] + 24 * hash /\ f_cdr[buckets] = f_cdr_in[buckets] }
  hook[after:vector_ref_] assert { let s = hslot f_car_in f_cdr_in table hash in f_type_in[s] = tREF /\ f_car_in[s] = hbucket f_car_in f_cdr_in table hash /\ s < g_free_in }
  hook[after:vector_ref_] assert { $r = hbucket f_car_in f_cdr_in table hash }
  hook[before:acons] assert { bucket = if f_type_in[hbucket f_car_in f_cdr_in table hash] = tPAIR then hbucket f_car_in f_cdr_in table hash else cell_nil }
  hook[before:vector_set_x_] slots_frame vs f_type_in f_car_in f_cdr_in f_type f_car f_cdr g_cells g_free_in g_free buckets
  hook[before:vector_set_x_] assert { f_type[bucket] = tPAIR /\ bucket >= g_free_in /\ f_car[bucket] >= g_free_in /\ f_type[f_car[bucket]] = tPAIR /\ f_car[f_car[bucket]] = key /\ f_cdr[f_car[bucket]] = value }
  hook[before:vector_set_x_] assert { f_cdr[bucket] = if f_type_in[hbucket f_car_in f_cdr_in table hash] = tPAIR then hbucket f_car_in f_cdr_in table hash else cell_nil }
  hook[after:vector_set_x_] assert { slot f_type f_car f_cdr (hslot f_car_in f_cdr_in table hash) bucket }
  hook[after:vector_set_x_] assert { f_type[bucket] = tPAIR /\ f_type[f_car[bucket]] = tPAIR /\ f_car[f_car[bucket]] = key /\ f_cdr[f_car[bucket]] = value }
  hook[after:vector_set_x_] assert { f_car[hslot f_car_in f_cdr_in table hash] = bucket /\ f_type[hslot f_car_in f_cdr_in table hash] = tREF }

macro STORESTEPS
  ghostarg[hash_set_x_] len
  pre assert { f_type[f_cdr[table] + 72] = tNUMBER /\ f_cdr[table] + 72 < g_free }
  pre assert { slots vs f_type f_car f_cdr g_cells g_free table }
  hook[before:%1] assert { size = hsize f_cdr_in table }
  hook[before:%1] assert { f_type[key] = f_type_in[key] /\ f_car[key] = f_car_in[key] /\ f_cdr[key] = f_cdr_in[key] }
  hook[before:%1] assert { f_type[key] = tSTRING \/ f_type[key] = tKEYWORD \/ f_type[key] = tSYMBOL \/ f_type[key] = tSPECIAL -> wstr f_car f_cdr v8 key }
  hook[before:%1] slots_frame vs f_type_in f_car_in f_cdr_in f_type f_car f_cdr g_cells g_free_in g_free table
  hook[after:%1] assert { f_cdr[key] = f_cdr_in[key] }
  hook[after:%1] assert { $r = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) /\ 0 <= $r < hsize f_cdr_in table }
  hook[after:%1] assert { cast_u32 $r = $r }
  pre let ghost ref free_ = 0 in let ghost ref ty_ = f_type in let ghost ref car_ = f_car in let ghost ref cdr_ = f_cdr in
  hook[before:hash_set_x_] free_ <- g_free; ty_ <- f_type; car_ <- f_car; cdr_ <- f_cdr
  hook[before:hash_set_x_] assert { hash = hidx m8 (f_cdr_in[key] + 16) (hsize f_cdr_in table) }
  hook[before:hash_set_x_] htab_frame vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free table len
  post pushed_early f_type_in f_car_in f_cdr_in ty_ car_ cdr_ f_type f_car f_cdr cell_nil g_free_in free_ table hash key value (pure { f_car[hslot car_ cdr_ table hash] })
  post htab_push vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free table len hash key value (pure { f_car[hslot f_car_in f_cdr_in table hash] })
  post bucket_push vs v8 f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil cell_f g_cells g_free_in g_free table len hash key value (pure { f_car[hslot f_car_in f_cdr_in table hash] })
endmacro
fn hashq_set_x
  file src/hash.c
  params table key value
  @STORE
  @STORED
  @NAMED key
  writes m8
  reads cell_symbol_system_error
  requires 0 <= f_type[key] <= 17 /\ (f_type[key] = tSTRING \/ f_type[key] = tKEYWORD \/ f_type[key] = tSYMBOL \/ f_type[key] = tSPECIAL -> f_cdr[key] < g_free /\ f_type[f_cdr[key]] = tBYTES)
  requires[room] forall i. 0 <= i < hsize f_cdr table -> len[i] < 1000000000000
  ensures[checked] (old f_type)[key] = tSYMBOL \/ (old f_type)[key] = tSPECIAL
  ensures[same-text] m8 = old m8
  raises[only-for-no-symbol] Stop: (old f_type)[key] <> tSYMBOL /\ (old f_type)[key] <> tSPECIAL
  @STOPKEPT
  @STORESTEPS hashq_

fn hash_set_x
  file src/hash.c
  params table key value
  @STORE
  @STORED
  @NAMED key
  requires 0 <= f_type[key] <= 17 /\ (f_type[key] = tSTRING \/ f_type[key] = tKEYWORD \/ f_type[key] = tSYMBOL \/ f_type[key] = tSPECIAL -> f_cdr[key] < g_free /\ f_type[f_cdr[key]] = tBYTES)
  requires[room] forall i. 0 <= i < hsize f_cdr table -> len[i] < 1000000000000
  ensures[checked] (old f_type)[key] = tSTRING
  raises[only-for-no-string] Stop: (old f_type)[key] <> tSTRING
  @STORESTEPS hash_

macro SYMS
  reads %1
  requires obj %1 g_cells g_free /\ not imm f_type[%1]
endmacro
macro NEWTAB
  uses scm.Strg scm.Equal scm.Hash scm.Vec scm.List
  @ALLOCS
  @SYMS cell_symbol_hashq_table;
  @SYMS cell_symbol_buckets;
  @SYMS cell_symbol_size;
  @SYMS cell_symbol_record_type;
  @SYMS cell_unspecified;
  reads cell_nil
  requires[nil] f_type[cell_nil] <> tPAIR /\ cell_nil < g_free
  @KEPT
  raises Full: true
endmacro
fn make_hashq_type
  file src/hash.c
  @NEWTAB
  ghostarg[make_struct] 2
  ensures[fresh] f_type[result] = tSTRUCT /\ obj result g_cells g_free /\ result >= old g_free
  raises[never] Stop: false
  hook[before:make_struct] nth_step f_cdr fields 0; nth_step f_cdr fields 1
  hook[before:make_struct] assert { nth f_cdr fields 2 = cell_nil /\ nth f_cdr fields 1 = f_cdr[fields] /\ nth f_cdr fields 0 = fields }
  hook[before:make_struct] assert { obj fields g_cells g_free /\ obj f_cdr[fields] g_cells g_free /\ fields <> cell_nil /\ f_cdr[fields] <> cell_nil /\ f_type[fields] = tPAIR /\ f_type[f_cdr[fields]] = tPAIR }
  hook[before:make_struct] assert { lst f_type f_cdr cell_nil g_cells g_free fields 2 }
  hook[before:make_struct] assert { obj f_car[fields] g_cells g_free /\ obj f_car[f_cdr[fields]] g_cells g_free }

fn make_hash_table_
  file src/hash.c
  params size
  @NEWTAB
  requires size <= 1000000000
  reads cell_f
  requires f_type[cell_unspecified] <> tPAIR
  ghostarg[make_struct] 3
  ensures[positive] 0 <= size
  ensures[empty-table] htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free result empty
  ensures[size] hsize f_cdr result = if size = 0 then 100 else size
  ensures[fresh] result >= old g_free /\ obj result g_cells g_free
  raises[never] Stop: false
  hook[before:make_struct] nth_step f_cdr values 0; nth_step f_cdr values 1; nth_step f_cdr values 2
  hook[before:make_struct] assert { nth f_cdr values 3 = cell_nil /\ nth f_cdr values 2 = f_cdr[f_cdr[values]] /\ nth f_cdr values 1 = f_cdr[values] /\ nth f_cdr values 0 = values }
  hook[before:make_struct] let ghost a = pure { f_cdr[values] } in let ghost b = pure { f_cdr[a] } in assert { obj values g_cells g_free /\ obj a g_cells g_free /\ obj b g_cells g_free /\ values <> cell_nil /\ a <> cell_nil /\ b <> cell_nil /\ f_type[values] = tPAIR /\ f_type[a] = tPAIR /\ f_type[b] = tPAIR }
  hook[before:make_struct] assert { lst f_type f_cdr cell_nil g_cells g_free values 3 }
  hook[before:make_struct] assert { f_car[nth f_cdr values 0] = cell_symbol_hashq_table /\ f_car[nth f_cdr values 2] = buckets /\ let c = f_car[nth f_cdr values 1] in f_type[c] = tNUMBER /\ f_cdr[c] = size /\ obj c g_cells g_free }
  hook[before:make_struct] assert { obj buckets g_cells g_free /\ f_type[buckets] = tVECTOR /\ f_car[buckets] = size }
  hook[before:make_struct] assert { forall i. buckets + 24 <= i < buckets + 24 + 24 * size -> mod (i - buckets) 24 = 0 -> f_type[i] = tREF /\ f_car[i] = cell_unspecified }
  hook[after:make_struct] assert { forall i. buckets + 24 <= i < buckets + 24 + 24 * size -> mod (i - buckets) 24 = 0 -> f_type[i] = tREF /\ f_car[i] = cell_unspecified }
  hook[after:make_struct] assert { f_type[buckets] = tVECTOR /\ f_car[buckets] = size /\ f_cdr[buckets] = buckets + 24 /\ buckets + 24 + 24 * size <= $r }
  hook[after:make_struct] assert { f_cdr[$r] = $r + 24 /\ slot f_type f_car f_cdr ($r + 24) hashq_type /\ slot f_type f_car f_cdr ($r + 48) cell_unspecified }
  hook[after:make_struct] assert { f_type[$r + 72] = tREF /\ f_car[$r + 72] = cell_symbol_hashq_table }
  hook[after:make_struct] assert { f_type[$r + 96] = tNUMBER /\ f_cdr[$r + 96] = size /\ f_type[$r + 120] = tREF /\ f_car[$r + 120] = buckets }
  hook[after:make_struct] five (pure { $r + 24 })
  hook[after:make_struct] assert { g_free_in <= cell_unspecified -> false }
  hook[after:make_struct] assert { f_type[$r + 24] = tREF /\ f_car[$r + 24] = hashq_type /\ f_type[hashq_type] = tSTRUCT /\ obj hashq_type g_cells g_free }
  hook[after:make_struct] assert { f_type[$r + 48] = tREF /\ f_car[$r + 48] = cell_unspecified /\ not imm f_type[cell_unspecified] /\ obj cell_unspecified g_cells g_free }
  hook[after:make_struct] assert { not imm f_type[cell_symbol_hashq_table] /\ obj cell_symbol_hashq_table g_cells g_free }
  hook[after:make_struct] new_htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free (pure { g_cells + 24 * g_ARENA_SIZE }) $r buckets size cell_unspecified

fn make_hash_table
  file src/hash.c
  params x
  @NEWTAB
  reads cell_f
  requires f_type[cell_unspecified] <> tPAIR
  requires vs[x] /\ (f_type[x] = tPAIR -> vs[f_car[x]] /\ (f_type[f_car[x]] = tNUMBER -> f_cdr[f_car[x]] <= 1000000000))
  ensures[checked] (old f_type)[x] = tPAIR -> (old f_type)[(old f_car)[x]] = tNUMBER /\ 0 <= (old f_cdr)[(old f_car)[x]]
  ensures[empty-table] htab vs v8 f_type f_car f_cdr cell_nil cell_f g_cells g_free result empty
  ensures[size] hsize f_cdr result = if (old f_type)[x] <> tPAIR \/ (old f_cdr)[(old f_car)[x]] = 0 then 100 else (old f_cdr)[(old f_car)[x]]
  ensures[fresh] result >= old g_free /\ obj result g_cells g_free
  raises[only-for-bad-arguments] Stop: (old f_type)[x] = tPAIR /\ (old f_type)[(old f_car)[x]] <> tNUMBER
