# ---------------------------------------------------------------- L11 buffered input
macro IO
  uses mem.Str sys.Sys heap.Heap env.Env path.Path fdio.Io ctype.Ctype num.Num
  ghost n: int
  reads environ
  requires[state] heap_ok u__brk kbrk v8 /\ (u__read_cache = 0 -> env_ok m8 m64 v8 v64 environ n)
  requires[state] io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
endmacro
macro IOKEPT
  ensures[state] heap_ok u__brk kbrk v8
  ensures[state] io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[cache-stays] old u__read_cache <> 0 -> u__read_cache = old u__read_cache /\ u__read_buffer_max = old u__read_buffer_max
  ensures[cache-is-new] old u__read_cache = 0 -> u__read_cache <> 0 -> (forall a. (old v8)[a] \/ (old v64)[a] -> not (u__read_cache <= a < u__read_cache + 69632))
  ensures[grows-into-free-memory] old kbrk <= kbrk /\ forall a. (old v8)[a] -> not (old kbrk <= a < kbrk)
endmacro

fn _read
  file lib/linux/_read.c
  params filedes buffer size
  uses mem.Str sys.Sys fdio.Io
  requires range v8 buffer size
  writes m8 k_pos k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[result] -1 <= result <= size /\ result <= 2147479552
  ensures[frame] forall a. not (buffer <= a < buffer + result) -> m8[a] = (old m8)[a]
  ensures[bytes] 0 <= result -> got m8 filedes (old k_pos)[filedes] buffer result
  ensures[position] k_pos = if result < 0 then old k_pos else set (old k_pos) filedes ((old k_pos)[filedes] + result)
  ensures[error] result < 0 -> k_nr = 0 /\ k_res < 0 /\ errno = 0 - k_res
  ensures[end] result = 0 -> k_nr = 0 /\ k_res = 0
  hook[after:_sys_call3#0] kernel_read ()

fn __buffered_read_init
  file lib/mes/__buffered_read.c
  params filedes
  note malloc of the read buffers is assumed to succeed
  @IO
  writes m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[there] cache_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
  ensures[nothing-else] old u__read_cache <> 0 -> v8 = old v8 /\ v32 = old v32 /\ v64 = old v64 /\ m64 = old m64
  ensures[frame] forall a. (old v64)[a] -> m64[a] = (old m64)[a]
  ensures[positions] forall f. at_pos k_pos m64 u__read_cache f = at_pos k_pos (old m64) (old u__read_cache) f
  ghostarg[getenv] n
  hook[after:malloc#0] assume { $r <> 0 }; env_grow m8 m64 v8_in v8 v64_in v64 environ n; v2 <- v64
  hook[after:getenv#0] (if $r <> 0 then value_str m8 m64 v8 v64 environ n $1)
  pre let ghost ref v2 = v64 in
  post (if u__read_cache_in = 0 then fresh m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max)

fn __buffered_read_clear
  file lib/mes/__buffered_read.c
  params filedes
  @IO
  ghostarg[__buffered_read_init] n
  writes m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[size] result = left (old m64) (old u__read_cache) filedes /\ (result = 0 \/ (0 <= result <= u__read_buffer_max /\ 0 <= filedes < 512 /\ 0 < u__read_cache))
  ensures[emptied] at_pos k_pos m64 u__read_cache filedes = k_pos[filedes]
  ensures[bytes-still-there] got m8 filedes (k_pos[filedes] - result) (cb u__read_cache filedes + 8 + u__read_buffer_max - result) result
  ensures[positions] forall f. f <> filedes -> at_pos k_pos m64 u__read_cache f = at_pos k_pos (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
  hook[after:__buffered_read_init] m1 <- m64; one_buf m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes; assert { at_pos k_pos m64 u__read_cache filedes = at_pos k_pos m64_in u__read_cache_in filedes }
  pre let ghost ref m1 = m64 in
  post got_none m8 filedes k_pos[filedes] (cb u__read_cache filedes + 8 + u__read_buffer_max); (if 0 <= filedes < 512 then (assert { buf_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes }; only m8 m8 m1 m64 v8 v8 v64 v64 k_pos k_pos u__read_cache u__read_buffer_max filedes))

fn __buffered_read_restore
  file lib/mes/__buffered_read.c
  params filedes size
  uses mem.Str env.Env fdio.Io
  requires[state] io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
  requires[descriptor] size = 0 \/ (0 < u__read_cache /\ 0 <= filedes < 512)
  requires[emptied] at_pos k_pos m64 u__read_cache filedes = k_pos[filedes]
  requires[bytes-there] 0 <= size /\ (size = 0 \/ size <= u__read_buffer_max) /\ got m8 filedes (k_pos[filedes] - size) (cb u__read_cache filedes + 8 + u__read_buffer_max - size) size
  reads u__read_buffer_max
  writes m64
  ensures[state] io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
  ensures[position] at_pos k_pos m64 u__read_cache filedes = k_pos[filedes] - size
  ensures[positions] forall f. f <> filedes -> at_pos k_pos m64 u__read_cache f = at_pos k_pos (old m64) u__read_cache f
  ensures[frame] forall a. (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
  pre (if size <> 0 then one_buf m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes)
  post (if size <> 0 then (assert { buf_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes }; only m8 m8 m64_in m64 v8 v8 v64 v64 k_pos k_pos u__read_cache u__read_buffer_max filedes))

fn __buffered_read
  file lib/mes/__buffered_read.c
  opt sp
  params filedes buffer size
  @IO
  ghostarg[__buffered_read_init] n
  ghostarg[__buffered_read] n
  callas itoa diag_itoa
  requires[valid-block] 0 < buffer /\ size <= 4611686018427387903 /\ range v8 buffer size /\ outside u__read_cache buffer size
  variant 2 * size + (if left m64 u__read_cache filedes > 0 then 0 else 1)
  writes m8 k_pos m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[result] -1 <= result <= size /\ result <= 2147479680
  ensures[bytes] 0 <= result -> got m8 filedes (at_pos (old k_pos) (old m64) (old u__read_cache) filedes) buffer result
  ensures[position] at_pos k_pos m64 u__read_cache filedes = at_pos (old k_pos) (old m64) (old u__read_cache) filedes + (if result < 0 then 0 else result)
  ensures[error] result < 0 -> k_nr = 0 /\ k_res < 0 /\ errno = 0 - k_res
  ensures[end] result = 0 -> size = 0 \/ (k_nr = 0 /\ k_res = 0)
  ensures[buffered-first] 0 < left (old m64) (old u__read_cache) filedes -> 0 < size -> 0 < result
  ensures[positions] forall f. f <> filedes -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> not (buffer <= a < buffer + size) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
  pre let ghost ref m1 = m8 in let ghost ref w1 = m64 in let ghost ref k1 = k_pos in let ghost ref o = 0 in let ghost ref before = m8 in let ghost ref d = 0 in let ghost ref m2 = m8 in
  hook[after:__buffered_read_init] (if u__read_cache_in = 0 then old_block v8_in u__read_cache buffer size); m1 <- m8; w1 <- m64; k1 <- k_pos; o <- at_pos k_pos m64 u__read_cache filedes; one_buf m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes; assert { o = at_pos k_pos_in m64_in u__read_cache_in filedes }; got_none m8 filedes o buffer
  loop
    inv[position] 0 <= todo <= size /\ size - todo + m64[cache] <= u__read_buffer_max /\ p = buffer + (size - todo) /\ cache = cb u__read_cache filedes
    inv[left] 0 <= m64[cache] <= u__read_buffer_max /\ o + (size - todo) = k_pos[filedes] - m64[cache]
    inv[buffered] got m8 filedes (k_pos[filedes] - m64[cache]) (cache + 8 + u__read_buffer_max - m64[cache]) m64[cache]
    inv[delivered] got m8 filedes o buffer (size - todo)
    inv[frame] forall a. not (buffer <= a < buffer + size) -> m8[a] = m1[a]
    inv[frame] forall a. a <> cache -> m64[a] = w1[a]
    start before <- m8
    end got_one before m8 filedes k_pos[filedes] (cache + 8) (m64[cache] + 1) u__read_buffer_max (p - 1) (size - todo - 1) o
    after assert { buf_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes }; only m1 m8 w1 m64 v8 v8 v64 v64 k1 k_pos u__read_cache u__read_buffer_max filedes; m1 <- m8; w1 <- m64; d <- size - todo
    variant todo
  hook[after:_read] (if filedes < 0 || filedes >= 512 then kept m8_in m8 m64_in m64 v8_in v8 v64_in v64 k_pos u__read_cache u__read_buffer_max else (got_kept m1 m8 filedes o buffer d; (if $2 = buffer + d && $r >= 0 then got_join m8 filedes o buffer d $r); got_none m8 filedes k_pos[filedes] (cb u__read_cache filedes + 8 + u__read_buffer_max); m2 <- m8; (if pure { $r <= 0 \/ $2 <> cb u__read_cache filedes + 8 } then (assert { buf_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes }; only m1 m8 w1 m64 v8 v8 v64 v64 k1 k_pos u__read_cache u__read_buffer_max filedes))))
  hook[before:__buffered_read] got_buf m2 m8 filedes k_pos[filedes] (cache + 8) u__read_buffer_max bytes; got_kept m2 m8 filedes o buffer d; assert { buf_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max filedes }; only m1 m8 w1 m64 v8 v8 v64 v64 k1 k_pos u__read_cache u__read_buffer_max filedes; m2 <- m8
  hook[after:__buffered_read] got_kept m2 m8 filedes o buffer d; got_join m8 filedes o buffer d $r

extern eputc
  file lib/mes/eputc.c
  params c
  writes -

fn read
  file lib/posix/buffered-read.c
  params filedes buffer size
  @IO
  ghostarg[__buffered_read] n
  callas itoa diag_itoa
  requires[valid-block] 0 < buffer /\ size <= 4611686018427387903 /\ range v8 buffer size /\ outside u__read_cache buffer size
  writes m8 k_pos m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[result] -1 <= result <= size /\ result <= 2147479680
  ensures[bytes] 0 <= result -> got m8 filedes (at_pos (old k_pos) (old m64) (old u__read_cache) filedes) buffer result
  ensures[position] at_pos k_pos m64 u__read_cache filedes = at_pos (old k_pos) (old m64) (old u__read_cache) filedes + (if result < 0 then 0 else result)
  ensures[error] result < 0 -> k_nr = 0 /\ k_res < 0 /\ errno = 0 - k_res
  ensures[end] result = 0 -> size = 0 \/ (k_nr = 0 /\ k_res = 0)
  ensures[buffered-first] 0 < left (old m64) (old u__read_cache) filedes -> 0 < size -> 0 < result
  ensures[positions] forall f. f <> filedes -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> not (buffer <= a < buffer + size) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]

# ---------------------------------------------------------------- push-back
macro UNG
  uses mem.Str sys.Sys heap.Heap fdio.Io
  requires[state] heap_ok u__brk kbrk v8 /\ ung_ok v32 u__ungetc_buf
endmacro
macro UNGKEPT
  ensures[state] heap_ok u__brk kbrk v8 /\ ung_ok v32 u__ungetc_buf
  ensures[stays] old u__ungetc_buf <> 0 -> u__ungetc_buf = old u__ungetc_buf /\ m8 = old m8 /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64
  ensures[error-number-kept] errno = old errno
  ensures[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[grows-into-free-memory] old kbrk <= kbrk /\ forall a. (old v8)[a] -> not (old kbrk <= a < kbrk)
endmacro
fn __ungetc_init
  file lib/mes/fdgetc.c
  opt noparams
  note malloc of the push-back table is assumed to succeed; four bytes of -1 are the int -1
  @UNG
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[there] u__ungetc_buf <> 0
  ensures[as-before] forall f. pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> m32[a] = (old m32)[a]
  hook[after:malloc#0] assume { $r <> 0 }
  hook[after:memset#0] minus_ones $1 513; assert { forall f. 0 <= f <= 512 -> m32[ub u__ungetc_buf f] = -1 }

fn __ungetc_p
  file lib/mes/fdgetc.c
  params filedes
  @UNG
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[pending] 0 <= result <= 1 /\ (result = 1 <-> 0 <= pushed (old m32) (old u__ungetc_buf) filedes)
  ensures[there] 0 <= filedes <= 512 -> u__ungetc_buf <> 0
  pre assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }
  hook[after:__ungetc_init] assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }
  ensures[as-before] forall f. pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> m32[a] = (old m32)[a]

fn __ungetc_clear
  file lib/mes/fdgetc.c
  params filedes
  @UNG
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[cleared] pushed m32 u__ungetc_buf filedes = -1
  ensures[others] forall f. f <> filedes -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> a <> ub u__ungetc_buf filedes -> m32[a] = (old m32)[a]
  pre assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }
  hook[after:__ungetc_init] assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }

fn __ungetc_set
  file lib/mes/fdgetc.c
  params filedes c
  @UNG
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[pushed] 0 <= filedes <= 512 -> pushed m32 u__ungetc_buf filedes = if c < 0 then -1 else c
  ensures[others] forall f. f <> filedes -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> a <> ub u__ungetc_buf filedes -> m32[a] = (old m32)[a]
  pre assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }
  hook[after:__ungetc_init] assert { 0 <= filedes <= 512 -> u__ungetc_buf <> 0 -> v32[ub u__ungetc_buf filedes] }

extern stop_msg
  file lib/mes/assert_msg.c
  params ok_ msg
  uses fdio.Io
  writes -
  raises Stop_: ok_ = 0
  ensures ok_ <> 0

fn fdungetc
  file lib/mes/fdungetc.c
  params c fd
  callas assert_msg stop_msg
  callas itoa diag_itoa
  @UNG
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[result] result = if 0 <= fd <= 512 then c else -1
  ensures[pushed] 0 <= fd <= 512 -> c <> -1 -> pushed m32 u__ungetc_buf fd = if c < 0 then -1 else c
  ensures[nothing-pushed] c = -1 -> m32 = old m32 /\ u__ungetc_buf = old u__ungetc_buf
  ensures[others] forall f. f <> fd -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> a <> ub u__ungetc_buf fd -> m32[a] = (old m32)[a]
  raises[second-push-back] Stop_: c <> -1 /\ 0 <= pushed (old m32) (old u__ungetc_buf) fd
  ensures[room] c <> -1 -> pushed (old m32) (old u__ungetc_buf) fd < 0

macro CHARIO
  writes m8 k_pos m32 m64 u__ungetc_buf u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  ensures[state] ung_ok v32 u__ungetc_buf
  ensures[pushed-back-first] 0 <= pushed (old m32) (old u__ungetc_buf) %1 -> result = pushed (old m32) (old u__ungetc_buf) %1 /\ at_pos k_pos m64 u__read_cache %1 = at_pos (old k_pos) (old m64) (old u__read_cache) %1
  ensures[used-up] pushed m32 u__ungetc_buf %1 = -1
  ensures[byte] pushed (old m32) (old u__ungetc_buf) %1 < 0 -> 0 <= result -> result = mod (k_byte %1 (at_pos (old k_pos) (old m64) (old u__read_cache) %1)) 256 /\ at_pos k_pos m64 u__read_cache %1 = at_pos (old k_pos) (old m64) (old u__read_cache) %1 + 1
  ensures[end] result < 0 -> result = -1 /\ at_pos k_pos m64 u__read_cache %1 = at_pos (old k_pos) (old m64) (old u__read_cache) %1 /\ k_nr = 0 /\ k_res <= 0
  ensures[others] forall f. f <> %1 -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[positions] forall f. f <> %1 -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
endmacro
fn fdgetc
  file lib/mes/fdgetc.c
  params fd
  @IO
  ghostarg[read] n
  requires[state] ung_ok v32 u__ungetc_buf
  @IOKEPT
  @CHARIO fd
  hook[after:__ungetc_p] assert { 0 <= fd <= 512 -> v32[ub u__ungetc_buf fd] }; kept m8_in m8 m64_in m64 v8_in v8 v64_in v64 k_pos u__read_cache u__read_buffer_max
  hook[before:read] assert { u__read_cache <> 0 -> range v8_in u__read_cache 69632 }; assert { not v8_in[$2] }; assert { outside u__read_cache $2 1 }; (if u__read_cache = 0 then env_read m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n)

fn fgetc
  file lib/stdio/fgetc.c
  params stream
  @IO
  ghostarg[fdgetc] n
  requires[state] ung_ok v32 u__ungetc_buf
  requires[stream] -2147483648 <= stream <= 2147483647
  @IOKEPT
  @CHARIO stream

fn getc
  file lib/stdio/getc.c
  params stream
  @IO
  ghostarg[fdgetc] n
  requires[state] ung_ok v32 u__ungetc_buf
  requires[stream] -2147483648 <= stream <= 2147483647
  @IOKEPT
  @CHARIO stream

fn getchar
  file lib/stdio/getchar.c
  opt noparams
  @IO
  reads u__stdin
  ghostarg[fdgetc] n
  requires[state] ung_ok v32 u__ungetc_buf
  @IOKEPT
  @CHARIO u__stdin

fn ungetc
  file lib/stdio/ungetc.c
  params c stream
  @UNG
  requires[stream] -2147483648 <= stream <= 2147483647
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[result] result = if 0 <= stream <= 512 then c else -1
  ensures[pushed] 0 <= stream <= 512 -> c <> -1 -> pushed m32 u__ungetc_buf stream = if c < 0 then -1 else c
  ensures[nothing-pushed] c = -1 -> m32 = old m32 /\ u__ungetc_buf = old u__ungetc_buf
  ensures[others] forall f. f <> stream -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  raises[second-push-back] Stop_: c <> -1 /\ 0 <= pushed (old m32) (old u__ungetc_buf) stream
  ensures[room] c <> -1 -> pushed (old m32) (old u__ungetc_buf) stream < 0

macro LINE
  requires[state] ung_ok v32 u__ungetc_buf
  requires[valid-block] 0 < s /\ 0 <= count /\ range v8 s count /\ outside u__read_cache s count
  requires[apart] u__read_cache = 0 -> apart m8 m64 environ n s count
  requires[character] pushed m32 u__ungetc_buf %1 <= 255
  writes m8 k_pos m32 m64 u__ungetc_buf u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[state] ung_ok v32 u__ungetc_buf
  ensures[result] result = s \/ result = 0
  ensures[nothing] result = 0 -> seen k_pos m64 u__read_cache m32 u__ungetc_buf %1 = seen (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) %1 /\ (count = 0 \/ (k_nr = 0 /\ k_res <= 0))
  ensures[line] result = s -> chars m8 %1 (at_pos (old k_pos) (old m64) (old u__read_cache) %1) (pushed (old m32) (old u__ungetc_buf) %1) s (taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1)
  ensures[fits] result = s -> 0 <= taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1 < count
  ensures[ended] result = s -> m8[s + taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1] = 0
  ensures[one-line] result = s -> forall a. s <= a < s + taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1 - 1 -> m8[a] <> 10
  ensures[complete] result = s -> taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1 = count - 1 \/ (k_nr = 0 /\ k_res <= 0) \/ m8[s + taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf %1 - 1] = 10
  ensures[others] forall f. f <> %1 -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[positions] forall f. f <> %1 -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> not (s <= a < s + count) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
endmacro
fn fdgets
  file lib/mes/fdgets.c
  params s count fd
  @IO
  @LINE fd
  ghostarg[fdgetc] n
  pre let ghost ref k = 0 in let ghost o = pure { at_pos k_pos m64 u__read_cache fd } in let ghost g = pure { pushed m32 u__ungetc_buf fd } in let ghost ref before = m8 in let ghost ref stopped = false in
  hook[before:fdgetc] (if u__read_cache = 0 then env_block m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n s_0 count_0); before <- m8
  hook[after:fdgetc] assert { $r >= 0 -> cast_s8 $r = nxt fd o g k }; assert { $r >= 0 -> $r <= 255 }; before <- m8
  loop
    inv[state] heap_ok u__brk kbrk v8 /\ ung_ok v32 u__ungetc_buf /\ io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
    inv[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
    inv[cache-stays] old u__read_cache <> 0 -> u__read_cache = old u__read_cache /\ u__read_buffer_max = old u__read_buffer_max
    inv[cache-is-new] old u__read_cache = 0 -> u__read_cache <> 0 -> (forall a. (old v8)[a] \/ (old v64)[a] -> not (u__read_cache <= a < u__read_cache + 69632))
    inv[grows-into-free-memory] old kbrk <= kbrk /\ forall a. (old v8)[a] -> not (old kbrk <= a < kbrk)
    inv[others] forall f. f <> fd -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
    inv[positions] forall f. f <> fd -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
    inv[frame] forall a. (old v8)[a] -> not (s <= a < s + count_0) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
    inv[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
    inv[outside] outside u__read_cache s count_0
    inv[count] 0 <= k <= count_0 /\ p = s + k /\ count = count_0 - k /\ (k = 0 \/ k < count_0)
    inv[taken] seen k_pos m64 u__read_cache m32 u__ungetc_buf fd = o - (if g < 0 then 0 else 1) + k /\ (k = 0 -> pushed m32 u__ungetc_buf fd = g) /\ (0 < k -> pushed m32 u__ungetc_buf fd = -1)
    inv[line] chars m8 fd o g s k
    inv[last] (k = 0 -> c = 0) /\ (0 < k -> m8[s + k - 1] = cast_s8 c /\ 0 <= c <= 255)
    inv[one-line] forall a. s <= a < s + k - 1 -> m8[a] <> 10
    end (if u__read_cache_in = 0 && u__read_cache <> 0 then old_block v8_in u__read_cache s_0 count_0); kept before m8 m64 m64 v8 v8 v64 v64 k_pos u__read_cache u__read_buffer_max; chars_one before m8 fd o g s k (p - 1); k <- k + 1
    variant count

fn fgets
  file lib/stdio/fgets.c
  params s count stream
  @IO
  ghostarg[fdgets] n
  requires[stream] -2147483648 <= stream <= 2147483647
  @LINE stream

fn __fungetc_p
  file lib/stdio/fread.c
  params stream
  @UNG
  requires[stream] -2147483648 <= stream <= 2147483647
  writes m8 m32 u__ungetc_buf u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @UNGKEPT
  ensures[pending] 0 <= result <= 1 /\ (result = 1 <-> 0 <= pushed (old m32) (old u__ungetc_buf) stream)
  ensures[there] 0 <= stream <= 512 -> u__ungetc_buf <> 0
  ensures[as-before] forall f. pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[frame] forall a. (old v32)[a] -> m32[a] = (old m32)[a]

fn fread
  file lib/stdio/fread.c
  opt sp
  params data size count stream
  @IO
  ghostarg[fgetc] n
  ghostarg[read] n
  callas itoa diag_itoa
  requires[state] ung_ok v32 u__ungetc_buf
  requires[stream] -2147483648 <= stream <= 2147483647
  requires[valid-block] 0 < data /\ 0 <= size * count <= 4611686018427387903 /\ range v8 data (size * count) /\ outside u__read_cache data (size * count)
  requires[apart] u__read_cache = 0 -> apart m8 m64 environ n data (size * count)
  requires[character] pushed m32 u__ungetc_buf stream <= 255
  requires[debug-buffer] 0 < debug_buf /\ range v8 debug_buf 4096 /\ outside u__read_cache debug_buf 4096 /\ disjoint data (size * count) debug_buf 4096
  writes m8 k_pos m32 m64 u__ungetc_buf u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[state] ung_ok v32 u__ungetc_buf
  ensures[bytes] chars m8 stream (at_pos (old k_pos) (old m64) (old u__read_cache) stream) (pushed (old m32) (old u__ungetc_buf) stream) data (taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf stream)
  ensures[fits] 0 <= taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf stream <= size * count
  ensures[result] 0 < size * count -> result = div (taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf stream) size
  ensures[nothing] size * count = 0 -> result = 0
  ensures[end] taken (old k_pos) (old m64) (old u__read_cache) (old m32) (old u__ungetc_buf) k_pos m64 u__read_cache m32 u__ungetc_buf stream = 0 -> size * count = 0 \/ (k_nr = 0 /\ k_res <= 0)
  ensures[others] forall f. f <> stream -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[positions] forall f. f <> stream -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> not (data <= a < data + size * count) -> not (debug_buf <= a < debug_buf + 4096) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
  pre let ghost w = pure { size * count } in let ghost ref k = 0 in let ghost o = pure { at_pos k_pos m64 u__read_cache stream } in let ghost g = pure { pushed m32 u__ungetc_buf stream } in let ghost ref before = m8 in let ghost ref vb8 = v8 in let ghost ref vb6 = v64 in
  hook[after:__fungetc_p] kept before m8 m64 m64 vb8 v8 vb6 v64 k_pos u__read_cache u__read_buffer_max; chars_kept before m8 stream o g data k; before <- m8; vb8 <- v8; vb6 <- v64
  hook[before:fgetc] (if u__read_cache = 0 then env_block m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n data w)
  hook[after:fgetc] chars_kept before m8 stream o g data k; before <- m8; vb8 <- v8; vb6 <- v64
  hook[before:read] assert { $2 = data + k /\ $3 = w - k /\ outside u__read_cache $2 $3 }; (if u__read_cache = 0 then env_block m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n data w)
  hook[after:read] (if u__read_cache_in = 0 && u__read_cache <> 0 then (old_block v8_in u__read_cache data w; old_block v8_in u__read_cache debug_buf 4096)); chars_kept before m8 stream o g data k; (if $r >= 0 then (chars_got m8 stream o g data k $r; k <- k + $r)); before <- m8; vb8 <- v8; vb6 <- v64
  hook[return] chars_kept before m8 stream o g data k; kept before m8 m64 m64 v8 v8 v64 v64 k_pos u__read_cache u__read_buffer_max
  loop
    inv[state] heap_ok u__brk kbrk v8 /\ ung_ok v32 u__ungetc_buf /\ io_ok m8 m64 v8 v64 k_pos u__read_cache u__read_buffer_max
    inv[frame] forall a. ((old v8)[a] -> v8[a]) /\ ((old v64)[a] -> v64[a]) /\ ((old v32)[a] -> v32[a])
    inv[cache-stays] old u__read_cache <> 0 -> u__read_cache = old u__read_cache /\ u__read_buffer_max = old u__read_buffer_max
    inv[cache-is-new] old u__read_cache = 0 -> u__read_cache <> 0 -> (forall a. (old v8)[a] \/ (old v64)[a] -> not (u__read_cache <= a < u__read_cache + 69632))
    inv[grows-into-free-memory] old kbrk <= kbrk /\ forall a. (old v8)[a] -> not (old kbrk <= a < kbrk)
    inv[others] forall f. f <> stream -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
    inv[positions] forall f. f <> stream -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
    inv[frame] forall a. (old v8)[a] -> not (data <= a < data + w) -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m8[a] = (old m8)[a]
    inv[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
    inv[outside] outside u__read_cache data w
    inv[snapshot] before = m8 /\ vb8 = v8 /\ vb6 = v64
    inv[count] 0 <= k <= 1 /\ bytes = k /\ buf = data + k /\ todo = w - k
    inv[taken] seen k_pos m64 u__read_cache m32 u__ungetc_buf stream = o - (if g < 0 then 0 else 1) + k /\ (k = 0 -> pushed m32 u__ungetc_buf stream = g /\ at_pos k_pos m64 u__read_cache stream = o) /\ (0 < k -> 0 <= g /\ pushed m32 u__ungetc_buf stream = -1 /\ at_pos k_pos m64 u__read_cache stream = o)
    inv[line] chars m8 stream o g data k
    end (if u__read_cache_in = 0 && u__read_cache <> 0 then old_block v8_in u__read_cache data w); kept before m8 m64 m64 v8 v8 v64 v64 k_pos u__read_cache u__read_buffer_max; chars_one before m8 stream o g data k (data + k); k <- k + 1; before <- m8; vb8 <- v8; vb6 <- v64
    variant 1 - k

macro POSKEPT
  ensures[positions] forall f. f <> filedes -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f
  ensures[frame] forall a. (old v8)[a] -> m8[a] = (old m8)[a]
  ensures[frame] forall a. (old v64)[a] -> (u__read_cache = 0 \/ not (u__read_cache <= a < u__read_cache + 69632)) -> m64[a] = (old m64)[a]
endmacro
fn lseek
  file lib/linux/lseek.c
  params filedes offset whence
  @IO
  ghostarg[__buffered_read_clear] n
  requires[range] -4611686018427387904 <= offset <= 4611686018427387903
  writes k_pos m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  @POSKEPT
  ensures[failed] result < 0 -> result = -1 /\ k_pos = old k_pos /\ errno = 0 - k_res /\ at_pos k_pos m64 u__read_cache filedes = at_pos (old k_pos) (old m64) (old u__read_cache) filedes
  ensures[position] 0 <= result -> at_pos k_pos m64 u__read_cache filedes = result
  ensures[absolute] 0 <= result -> whence = 0 -> result = offset
  ensures[relative] 0 <= result -> whence = 1 -> result = at_pos (old k_pos) (old m64) (old u__read_cache) filedes + offset
  ensures[only-then] result < 0 -> whence = 1 -> seekable filedes -> 0 <= at_pos (old k_pos) (old m64) (old u__read_cache) filedes -> at_pos (old k_pos) (old m64) (old u__read_cache) filedes + offset < 0
  ensures[emptied] 0 <= result -> k_pos[filedes] = result /\ seekable filedes
  hook[after:_lseek] kernel_lseek ()
  hook[after:_sys_call3] kernel_lseek ()

extern _write
  file lib/linux/x86_64-mes-gcc/_write.c
  params filedes buffer size
  uses mem.Str sys.Sys fdio.Io
  note the inline assembly issues system call write with these arguments and returns what the kernel returned
  requires range v8 buffer size
  writes k_pos k_wrote
  ensures -4095 <= result <= size /\ result <= 2147479552
  ensures k_wrote = (old k_pos)[filedes]
  ensures k_pos = if result < 0 \/ not seekable filedes then old k_pos else set (old k_pos) filedes ((old k_pos)[filedes] + result)

fn write
  file lib/posix/write.c
  params filedes buffer size
  @IO
  ghostarg[__buffered_read_clear] n
  ghostarg[lseek] n
  requires[valid-block] 0 < buffer /\ range v8 buffer size
  requires[position] 0 <= at_pos k_pos m64 u__read_cache filedes
  writes k_pos k_wrote m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  @POSKEPT
  ensures[result] -1 <= result <= size
  ensures[written-at-the-readers-position] seekable filedes -> k_wrote = at_pos (old k_pos) (old m64) (old u__read_cache) filedes
  ensures[position-behind-it] seekable filedes -> at_pos k_pos m64 u__read_cache filedes = at_pos (old k_pos) (old m64) (old u__read_cache) filedes + (if result < 0 then 0 else result)
  hook[before:lseek] assert { skip = left m64_in u__read_cache_in filedes }; assert { $2 = 0 - skip }
  ensures[input-kept] not seekable filedes -> at_pos k_pos m64 u__read_cache filedes = at_pos (old k_pos) (old m64) (old u__read_cache) filedes

fn close
  file lib/linux/close.c
  params filedes
  @IO
  ghostarg[__buffered_read_clear] n
  requires[state] ung_ok v32 u__ungetc_buf
  writes m8 m32 u__ungetc_buf m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  @POSKEPT
  ensures[state] ung_ok v32 u__ungetc_buf
  hook[after:__ungetc_clear] kept m8_in m8 m64_in m64 v8_in v8 v64_in v64 k_pos u__read_cache u__read_buffer_max; (if u__read_cache = 0 then env_read m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n)
  ensures[call] k_nr = 3 /\ k_1 = filedes /\ (k_res <= 2147483647 -> result = sysret k_res /\ (result < 0 -> errno = 0 - k_res))
  ensures[nothing-buffered] at_pos k_pos m64 u__read_cache filedes = k_pos[filedes] /\ pushed m32 u__ungetc_buf filedes = -1
  ensures[others] forall f. f <> filedes -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f

fn _open3
  file lib/linux/_open3.c
  params file_name flags mask
  @IO
  ghostarg[__buffered_read_clear] n
  requires[state] ung_ok v32 u__ungetc_buf
  writes m8 m32 u__ungetc_buf m64 u__read_cache u__read_buffer_max u__brk k_n k_nr k_1 k_2 k_3 k_4 k_res errno kbrk v8 v32 v64
  @IOKEPT
  ensures[state] ung_ok v32 u__ungetc_buf
  hook[after:__ungetc_clear] kept m8_in m8 m64_in m64 v8_in v8 v64_in v64 k_pos u__read_cache u__read_buffer_max; (if u__read_cache = 0 then env_read m8_in m8 m64_in m64 v8_in v8 v64_in v64 environ n)
  ensures[new-descriptor-is-empty] 2 < result -> at_pos k_pos m64 u__read_cache result = k_pos[result] /\ pushed m32 u__ungetc_buf result = -1
  ensures[others] forall f. f <> result -> pushed m32 u__ungetc_buf f = pushed (old m32) (old u__ungetc_buf) f
  ensures[positions] forall f. f <> result -> at_pos k_pos m64 u__read_cache f = at_pos (old k_pos) (old m64) (old u__read_cache) f