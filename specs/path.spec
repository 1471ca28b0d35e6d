# ---------------------------------------------------------------- L15 program lookup
fn search_path
  file lib/mes/search-path.c
  params file_name
  ghost n: int
  ghost w: int
  ghostarg[getenv] n
  uses mem.Str sys.Sys heap.Heap env.Env path.Path
  requires[state] env_ok m8 m64 v8 v64 environ n /\ heap_ok u__brk kbrk v8
  reads environ m64
  requires[PATH] vstr m8 v8 w /\ is_path m8 w
  requires[valid-name] vstr m8 v8 file_name
  requires[lengths] slen m8 file_name <= 1073741820 /\ (value m8 m64 environ n w <> 0 -> slen m8 (value m8 m64 environ n w) <= 1073741820)
  writes m8 u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] heap_ok u__brk kbrk v8
  ensures[no-path] value (old m8) m64 environ n w = 0 -> result = 0
  ensures[not-found] value (old m8) m64 environ n w <> 0 -> result = 0 -> kbrk = old kbrk \/ first_dir (old m8) (value (old m8) m64 environ n w) file_name = -1
  ensures[found] result <> 0 -> let a = first_dir (old m8) (value (old m8) m64 environ n w) file_name in a <> -1 /\ vstr m8 v8 result /\ cand (old m8) m8 result a file_name
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  pre let ghost ref p0 = 0 in let ghost ref l = 0 in let ghost ref m1 = m8 in
  loop
    inv[position] p0 <= path <= p0 + slen m8_in p0 /\ entry m8_in p0 path
    inv[none-before] none_to m8_in p0 file_name path
    inv[frame] forall a. v8_in[a] -> m8[a] = m8_in[a]
    start tail m8_in v8_in p0 path; str_kept m8_in m8 v8_in path; str_kept m8_in m8 v8_in file_name
    variant p0 + slen m8_in p0 + 1 - path
  hook[after:getenv#0] same_path m8 m64 environ n $1 w; p0 <- $r; (if $r <> 0 then value_str m8 m64 v8 v64 environ n $1)
  hook[after:malloc#0] (if $r <> 0 then (apart v8_in $r (slen m8 p0 + slen m8 file_name + 2) p0 (slen m8 p0 + 1); apart v8_in $r (slen m8 p0 + slen m8 file_name + 2) file_name (slen m8 file_name + 1)))
  hook[before:strncpy#0] end_is m8_in path end_; l <- end_ - path
  hook[after:strncpy#0] assert { forall a. v8_in[a] -> m8[a] = m8_in[a] }; assert { forall x. buf <= x < buf + l -> m8[x] = m8_in[path + (x - buf)] }; assert { l > 0 -> m8[buf + l - 1] = m8_in[end_ - 1] }
  hook[before:strcat#0] assert { l > 0 /\ slash m8_in path = 1 }; half m8_in m8 v8 buf path l 0
  hook[after:strcat#0] assert { forall a. v8_in[a] -> m8[a] = m8_in[a] }; assert { forall x. buf <= x < buf + l -> m8[x] = m8_in[path + (x - buf)] }; assert { m8[buf + l] = 47 /\ m8[buf + l + 1] = 0 }
  hook[before:strcat#1] m1 <- m8; assert { m8[buf + l] = (if slash m8_in path = 1 then 47 else 0) }; assert { m8[buf + l + slash m8_in path] = 0 }; assert { forall a. v8_in[a] -> m8[a] = m8_in[a] }; half m8_in m8 v8 buf path l (slash m8_in path); str_kept m8_in m8 v8_in file_name; assert { slen m1 buf = l + slash m8_in path /\ slen m1 file_name = slen m8_in file_name }
  hook[after:strcat#1] assert { forall x. buf + l + slash m8_in path <= x <= buf + l + slash m8_in path + slen m8_in file_name -> m8[x] = m1[file_name + (x - (buf + l + slash m8_in path))] /\ v8_in[file_name + (x - (buf + l + slash m8_in path))] }; assert { forall a. v8_in[a] -> m8[a] = m8_in[a] }; str_kept m8_in m8 v8_in path; assert { forall x. buf <= x < buf + l -> m8[x] = m8_in[path + (x - buf)] }; whole m8_in m8 v8 buf path l (slash m8_in path) file_name
  hook[after:access#0] kernel_access m8 k_1 k_2 k_res; (if $r <> 0 then (next_entry m8_in p0 file_name path; (if m8_in[end_] = 0 then is_none m8_in p0 file_name)) else is_first m8_in p0 file_name path)

fn execvp
  file lib/posix/execvp.c
  params file_name argv
  ghost n: int
  ghost w: int
  ghost c: int
  ghostarg[search_path] n
  ghostarg[search_path] w
  callas itoa diag_itoa
  uses mem.Str sys.Sys heap.Heap env.Env path.Path
  reads environ m64
  requires[state] env_ok m8 m64 v8 v64 environ n /\ heap_ok u__brk kbrk v8
  requires[PATH] vstr m8 v8 w /\ is_path m8 w
  requires[valid-name] vstr m8 v8 file_name
  requires[valid-arguments] env_ok m8 m64 v8 v64 argv c /\ c <= 2147483646
  requires[lengths] slen m8 file_name <= 1073741820 /\ (value m8 m64 environ n w <> 0 -> slen m8 (value m8 m64 environ n w) <= 1073741820)
  writes m8 u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[named-by-path] inset (old m8) file_name 47 -> k_nr = 59 /\ k_1 = file_name /\ k_2 = argv /\ k_3 = environ
  ensures[not-found] not (inset (old m8) file_name 47) -> let p = value (old m8) m64 environ n w in p = 0 \/ first_dir (old m8) p file_name = -1 -> result = -1 /\ errno = 2
  ensures[found] not (inset (old m8) file_name 47) -> let p = value (old m8) m64 environ n w in p <> 0 /\ first_dir (old m8) p file_name <> -1 -> (kbrk = old kbrk /\ result = -1 /\ errno = 2) \/ (k_nr = 59 /\ vstr m8 v8 k_1 /\ cand (old m8) m8 k_1 (first_dir (old m8) p file_name) file_name /\ k_2 = argv /\ k_3 = environ)
  ensures[result] result = -1 \/ (k_nr = 59 /\ (k_res <= 2147483647 -> result = sysret k_res))
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  pre let ghost ref i0 = 0 in
  loop
    inv[position] i = i0 /\ 0 <= i <= c
    start slot v64 argv c i; assert { ent m64 argv i = m64[argv + 8 * i] }
    end i0 <- i0 + 1
    variant c - i
