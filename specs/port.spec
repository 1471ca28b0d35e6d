# ---------------------------------------------------------------- S13 input ports
# n open string ports; the current one (if no descriptor is current) is the k-th
macro PORTS
  uses scm.List scm.Strg scm.Port
  @STRARENA
  ghost n: int
  ghost k: int
  reads g_ports cell_nil
  requires[ports] n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free g_ports n
  requires[descriptor] %1 <= 512
  requires[current] %1 < 0 -> 0 <= k < n /\ names f_car f_cdr g_ports k %1
  requires[ports] forall j. 0 <= j < n -> obj (port_of f_car f_cdr g_ports j) g_cells g_free /\ f_type[port_of f_car f_cdr g_ports j] = tPORT /\ vs[port_of f_car f_cdr g_ports j]
endmacro
# the current string port's text
macro PORTTEXT
  requires[text] %1 < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs (port_of f_car f_cdr g_ports k) /\ tlen f_car f_cdr (port_of f_car f_cdr g_ports k) <= g_MAX_STRING
endmacro

macro READ
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[descriptor] 0 <= %1 -> d_read (old d_pos) (old d_push) d_pos d_push (%1) (%2) /\ m8 = old m8
  ensures[descriptor] 0 <= %1 -> forall a. a < old g_free -> f_cdr[a] = (old f_cdr)[a]
  ensures[descriptors] %1 < 0 -> d_pos = old d_pos /\ d_push = old d_push
  ensures[end] %1 < 0 -> tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) = 0 -> %2 = -1 /\ m8 = old m8 /\ forall a. a < old g_free -> f_cdr[a] = (old f_cdr)[a]
  ensures[character] %1 < 0 -> 0 < tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) -> %2 = text (old f_cdr) (old m8) (port_of (old f_car) (old f_cdr) g_ports k) 0
  ensures[once] %1 < 0 -> 0 < tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) -> rest (old f_car) (old f_cdr) (old m8) f_car f_cdr m8 (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[port] %1 < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[other-objects] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ (%1 < 0 /\ a = port_of (old f_car) (old f_cdr) g_ports k))
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  ensures[result] -1 <= %2 <= 255
endmacro
# the contracts of fdgetc and fdungetc (fdio.spec), the C library's state seen as (d_pos, d_push)
extern port_getc
  file lib/mes/fdgetc.c
  uses scm.Port
  function fdgetc
  params fd
  writes d_pos d_push
  ensures -1 <= result <= 255
  ensures d_push = set (old d_push) fd (-1)
  ensures 0 <= (old d_push)[fd] -> result = (old d_push)[fd] /\ d_pos = old d_pos
  ensures (old d_push)[fd] < 0 -> 0 <= result -> result = d_byte fd (old d_pos)[fd] /\ d_pos = set (old d_pos) fd ((old d_pos)[fd] + 1)
  ensures result < 0 -> d_pos = old d_pos /\ (old d_push)[fd] < 0
extern port_ungetc
  file lib/mes/fdungetc.c
  uses scm.Port
  function fdungetc
  params c fd
  requires 0 <= fd <= 512 /\ -1 <= c <= 255
  writes d_push
  ensures result = c
  ensures d_push = if c = -1 then old d_push else set (old d_push) fd c
  ensures c <> -1 -> (old d_push)[fd] < 0
  raises Stop: c <> -1 /\ 0 <= (old d_push)[fd] /\ d_push = old d_push

fn current_input_port
  file src/posix.c
  @PORTS u__stdin
  reads u__stdin
  writes g_free f_type f_car f_cdr
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[descriptor] 0 <= u__stdin -> result = old g_free /\ g_free = old g_free + 24 /\ f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- u__stdin]
  ensures[string-port] u__stdin < 0 -> result = port_of (old f_car) (old f_cdr) g_ports k /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ g_free = old g_free
  raises[room] Full: 0 <= u__stdin /\ old g_free + 24 > g_cells + 24 * g_ARENA_SIZE
  pre let ghost ref j = 0 in
  loop
    inv[position] 0 <= j <= k < n /\ x = nth f_cdr g_ports j
    inv[unchanged] f_type = f_type_in /\ f_car = f_car_in /\ f_cdr = f_cdr_in /\ g_free = g_free_in
    start nth_step f_cdr g_ports j
    end j <- j + 1
    variant n - j

fn readchar
  file src/posix.c
  @PORTS u__stdin
  @PORTTEXT u__stdin
  ghostarg[current_input_port] n
  ghostarg[current_input_port] k
  callas fdgetc port_getc
  reads u__stdin
  writes g_free f_type f_car f_cdr m8 d_pos d_push
  ensures[arena] old g_free <= g_free
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[descriptor] 0 <= u__stdin -> d_read (old d_pos) (old d_push) d_pos d_push u__stdin result /\ g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[descriptors] u__stdin < 0 -> d_pos = old d_pos /\ d_push = old d_push
  ensures[end] u__stdin < 0 -> tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) = 0 -> result = -1 /\ g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[character] u__stdin < 0 -> 0 < tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) -> result = text (old f_cdr) (old m8) (port_of (old f_car) (old f_cdr) g_ports k) 0
  ensures[once] u__stdin < 0 -> 0 < tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) -> rest (old f_car) (old f_cdr) (old m8) f_car f_cdr m8 (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[port] u__stdin < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[other-objects] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ (u__stdin < 0 /\ a = port_of (old f_car) (old f_cdr) g_ports k))
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  ensures[result] -1 <= result <= 255
  raises Stop: false
  raises Full: u__stdin < 0

fn unreadchar
  file src/posix.c
  params c
  @PORTS u__stdin
  @PORTTEXT u__stdin
  ghostarg[current_input_port] n
  ghostarg[current_input_port] k
  callas fdungetc port_ungetc
  reads u__stdin d_pos
  requires[character] -1 <= c <= 255
  writes g_free f_type f_car f_cdr m8 d_push
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[descriptor] 0 <= u__stdin -> d_unread d_pos (old d_push) d_push u__stdin c /\ g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[descriptors] u__stdin < 0 -> d_push = old d_push
  ensures[end] c = -1 -> g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[character] u__stdin < 0 -> 0 <= c -> text f_cdr m8 (port_of (old f_car) (old f_cdr) g_ports k) 0 = c
  ensures[rest] u__stdin < 0 -> 0 <= c -> rest f_car f_cdr m8 (old f_car) (old f_cdr) (old m8) (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[port] u__stdin < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[other-objects] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ (u__stdin < 0 /\ a = port_of (old f_car) (old f_cdr) g_ports k))
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  ensures[result] result = c
  raises[only-when-too-long] Stop: (u__stdin < 0 /\ tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) >= g_MAX_STRING) \/ (0 <= u__stdin /\ c <> -1 /\ 0 <= (old d_push)[u__stdin])
  raises Full: u__stdin < 0

fn peekchar
  file src/posix.c
  @PORTS u__stdin
  @PORTTEXT u__stdin
  ghostarg[current_input_port] n
  ghostarg[current_input_port] k
  ghostarg[readchar] n
  ghostarg[readchar] k
  ghostarg[unreadchar] n
  ghostarg[unreadchar] k
  reads u__stdin
  writes g_free f_type f_car f_cdr m8 d_pos d_push
  ensures[nothing-changes] g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[descriptor] 0 <= u__stdin -> d_peek (old d_pos) (old d_push) d_pos d_push u__stdin result
  ensures[descriptors] u__stdin < 0 -> d_pos = old d_pos /\ d_push = old d_push
  ensures[character] u__stdin < 0 -> result = if tlen f_car f_cdr (port_of f_car f_cdr g_ports k) = 0 then -1 else text f_cdr m8 (port_of f_car f_cdr g_ports k) 0
  ensures[result] -1 <= result <= 255
  raises Stop: false
  raises Full: false
  pre let ghost ref p1 = d_pos in let ghost ref q1 = d_push in
  hook[after:readchar] p1 <- d_pos; q1 <- d_push
  hook[after:unreadchar] (if u__stdin >= 0 then d_peeked d_pos_in d_push_in p1 q1 d_push u__stdin $1)

macro READER
  ghostarg[readchar] n
  ghostarg[readchar] k
  ghostarg[peekchar] n
  ghostarg[peekchar] k
  ghostarg[unreadchar] n
  ghostarg[unreadchar] k
  writes g_free f_type f_car f_cdr m8 d_pos d_push
  raises Stop: false
  raises Full: true
endmacro
macro RESTKEPT
  pre let ghost ref t1 = f_type in let ghost ref c1 = f_car in let ghost ref d1 = f_cdr in let ghost ref g1 = g_free in
  hook[after:readchar] t1 <- f_type; c1 <- f_car; d1 <- f_cdr; g1 <- g_free
  post (if pure { %1 < 0 /\ 0 < tlen f_car_in f_cdr_in (port_of f_car_in f_cdr_in g_ports k) } then rest_kept vs v8 t1 f_car_in f_cdr_in m8_in c1 d1 m8 f_car f_cdr m8 g_cells g1 (port_of f_car_in f_cdr_in g_ports k))
endmacro
fn read_byte
  file src/posix.c
  @PORTS u__stdin
  @PORTTEXT u__stdin
  @READER
  reads u__stdin
  @READ u__stdin; f_cdr[result]
  @RESTKEPT u__stdin; make_number
  ensures[object] old g_free <= result < g_free /\ f_type[result] = tNUMBER

fn read_char
  file src/posix.c
  params port
  @PORTS (chosen f_type f_car f_cdr u__stdin port);
  @PORTTEXT (chosen f_type f_car f_cdr u__stdin port);
  requires vs[port] /\ (f_type[port] = tPAIR -> vs[f_car[port]])
  requires[port-number] chosen f_type f_car f_cdr u__stdin port >= -2147483648
  @READER
  writes u__stdin
  @READ (chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port); f_cdr[result]
  ensures[object] old g_free <= result < g_free /\ f_type[result] = tCHAR
  ensures[current-port] u__stdin = old u__stdin
  @RESTKEPT (chosen f_type_in f_car_in f_cdr_in u__stdin_in port_0); make_char

macro PEEK
  @PORTS u__stdin
  @PORTTEXT u__stdin
  reads u__stdin
  @READER
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @KEPT
  ensures[nothing-changes] m8 = old m8
  ensures[descriptor] 0 <= u__stdin -> d_peek (old d_pos) (old d_push) d_pos d_push u__stdin f_cdr[result]
  ensures[descriptors] u__stdin < 0 -> d_pos = old d_pos /\ d_push = old d_push
  ensures[character] u__stdin < 0 -> f_cdr[result] = if tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) = 0 then -1 else text (old f_cdr) m8 (port_of (old f_car) (old f_cdr) g_ports k) 0
endmacro
fn peek_byte
  file src/posix.c
  @PEEK
  ensures[object] result = old g_free /\ f_type[result] = tNUMBER
fn peek_char
  file src/posix.c
  @PEEK
  ensures[object] result = old g_free /\ f_type[result] = tCHAR

macro UNREAD
  @PORTS u__stdin
  @PORTTEXT u__stdin
  reads u__stdin d_pos
  ghostarg[unreadchar] n
  ghostarg[unreadchar] k
  requires[character] vs[%1] /\ -1 <= f_cdr[%1] <= 255 /\ f_type[%1] <> tPORT
  writes g_free f_type f_car f_cdr m8 d_push
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[descriptor] 0 <= u__stdin -> d_unread d_pos (old d_push) d_push u__stdin (old f_cdr)[%1] /\ g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[descriptors] u__stdin < 0 -> d_push = old d_push
  ensures[end] (old f_cdr)[%1] = -1 -> g_free = old g_free /\ f_type = old f_type /\ f_car = old f_car /\ f_cdr = old f_cdr /\ m8 = old m8
  ensures[character] u__stdin < 0 -> 0 <= (old f_cdr)[%1] -> text f_cdr m8 (port_of (old f_car) (old f_cdr) g_ports k) 0 = (old f_cdr)[%1]
  ensures[rest] u__stdin < 0 -> 0 <= (old f_cdr)[%1] -> rest f_car f_cdr m8 (old f_car) (old f_cdr) (old m8) (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[port] u__stdin < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[other-objects] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ (u__stdin < 0 /\ a = port_of (old f_car) (old f_cdr) g_ports k))
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  ensures[result] result = %1
  raises[only-when-too-long] Stop: (u__stdin < 0 /\ tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k) >= g_MAX_STRING) \/ (0 <= u__stdin /\ (old f_cdr)[%1] <> -1 /\ 0 <= (old d_push)[u__stdin])
  raises Full: u__stdin < 0
endmacro
fn unread_byte
  file src/posix.c
  params i
  @UNREAD i
fn unread_char
  file src/posix.c
  params i
  @UNREAD i

fn open_input_string
  file src/posix.c
  params string
  uses scm.List scm.Port
  @ALLOCS
  ghost n: int
  ghostarg[make_string_port] n
  reads cell_nil
  requires obj cell_nil g_cells g_free
  requires[ports] n <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free g_ports n
  requires[numbered] numbered f_car f_cdr g_ports n
  requires[ports] forall j. 0 <= j < n -> obj (port_of f_car f_cdr g_ports j) g_cells g_free
  writes g_ports
  ensures[port] result = old g_free /\ f_type[result] = tPORT /\ f_cdr[result] = string
  ensures[ports] lst f_type f_cdr cell_nil g_cells g_free g_ports (n + 1)
  ensures[numbered] numbered f_car f_cdr g_ports (n + 1)
  ensures[current] port_of f_car f_cdr g_ports 0 = result /\ names f_car f_cdr g_ports 0 f_car[result]
  ensures[other-ports] forall j. 0 <= j < n -> port_of f_car f_cdr g_ports (j + 1) = port_of (old f_car) (old f_cdr) (old g_ports) j
  @KEPT
  raises[room] Full: true
  pre assert { forall j. 0 <= j < n -> obj (nth f_cdr g_ports j) g_cells g_free }
  post nth_push f_cdr_in f_cdr g_ports_in g_ports n; assert { forall j. 0 <= j <= n -> nth f_cdr g_ports (j + 1) = nth f_cdr_in g_ports_in j }; assert { forall j. 0 < j < n + 1 -> nth f_cdr g_ports j = nth f_cdr_in g_ports_in (j - 1) }; assert { nth f_cdr g_ports 0 = g_ports }; assert { nth f_cdr g_ports (n + 1) = cell_nil }; assert { forall j. 0 <= j < n + 1 -> nth f_cdr g_ports j <> cell_nil }; assert { forall j. 0 <= j < n + 1 -> f_type[nth f_cdr g_ports j] = tPAIR /\ obj (nth f_cdr g_ports j) g_cells g_free }

fn set_current_input_port
  file src/posix.c
  params port
  @PORTS u__stdin
  ghostarg[current_input_port] n
  ghostarg[current_input_port] k
  requires vs[port] /\ port < g_free /\ (f_type[port] = tNUMBER -> -2147483648 <= f_cdr[port] <= 2147483647) /\ (f_type[port] = tPORT -> -2147483648 <= f_car[port] <= 2147483647)
  writes g_free f_type f_car f_cdr u__stdin
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[current] u__stdin = if (old f_type)[port] = tNUMBER then (old f_cdr)[port] else if (old f_type)[port] = tPORT then (old f_car)[port] else old u__stdin
  ensures[previous] old u__stdin < 0 -> result = port_of (old f_car) (old f_cdr) g_ports k
  ensures[previous] 0 <= old u__stdin -> f_type[result] = tNUMBER /\ f_cdr[result] = old u__stdin
  @KEPT
  raises[room] Full: true

fn read_string
  file src/string.c
  params port
  opt sp
  @PORTS (chosen f_type f_car f_cdr u__stdin port);
  @PORTTEXT (chosen f_type f_car f_cdr u__stdin port);
  @BUF
  requires vs[port] /\ (f_type[port] = tPAIR -> vs[f_car[port]])
  requires[port-number] chosen f_type f_car f_cdr u__stdin port >= -2147483648
  ghostarg[readchar] n
  ghostarg[readchar] k
  writes g_free f_type f_car f_cdr m8 d_pos d_push u__stdin
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[string] old g_free <= result < g_free /\ f_type[result] = tSTRING /\ wstr f_car f_cdr v8 result
  ensures[current-port] u__stdin = old u__stdin
  ensures[all-text] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port < 0 -> f_car[result] = tlen (old f_car) (old f_cdr) (port_of (old f_car) (old f_cdr) g_ports k)
  ensures[characters] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port < 0 -> forall i. 0 <= i < f_car[result] -> mod m8[f_cdr[result] + 16 + i] 256 = text (old f_cdr) (old m8) (port_of (old f_car) (old f_cdr) g_ports k) i
  ensures[nothing-left] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port < 0 -> tlen f_car f_cdr (port_of (old f_car) (old f_cdr) g_ports k) = 0
  ensures[descriptors] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port < 0 -> d_pos = old d_pos /\ d_push = old d_push
  ensures[descriptor] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port >= 0 -> d_left (old d_pos) (old d_push) d_pos d_push (chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port) f_car[result]
  ensures[characters] chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port >= 0 -> forall i. 0 <= i < f_car[result] -> mod m8[f_cdr[result] + 16 + i] 256 = dtext (old d_pos) (old d_push) (chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port) i
  ensures[other-objects] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ (chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port < 0 /\ a = port_of (old f_car) (old f_cdr) g_ports k))
  raises[only-when-too-long] Stop: chosen (old f_type) (old f_car) (old f_cdr) (old u__stdin) port >= 0 /\ u__stdin = old u__stdin
  raises Full: true
  pre let ghost p0 = pure { port_of f_car f_cdr g_ports k } in let ghost e = pure { chosen f_type f_car f_cdr u__stdin port } in let ghost ref c1 = f_car in let ghost ref d1 = f_cdr in let ghost ref ma = m8 in let ghost ref q1 = d_pos in let ghost ref q2 = d_push in let ghost ref gi = 0 in let ghost ref mb = m8 in
  pre left_0 f_car f_cdr m8 f_car f_cdr m8 p0; d_left_0 d_pos d_push e
  hook[before:readchar] ports_kept f_type_in f_car_in f_cdr_in f_type f_car f_cdr cell_nil g_cells g_free_in g_free g_ports n p0; (if e < 0 then left_same vs v8 f_type f_car_in f_cdr_in m8_in f_car f_cdr ma m8 g_cells g_free p0 gi); ma <- m8; c1 <- f_car; d1 <- f_cdr; q1 <- d_pos; q2 <- d_push
  hook[after:readchar] (if e < 0 then (if $r >= 0 then (assert { $r = text f_cdr_in m8_in p0 gi by $r = text d1 ma p0 0 /\ text d1 ma p0 0 = text f_cdr_in m8_in p0 (gi + 0) }; left_rest f_car_in f_cdr_in m8_in c1 d1 ma f_car f_cdr m8 p0 gi)) else d_left_read d_pos_in d_push_in q1 q2 d_pos d_push e gi $r); (if $r >= 0 then gi <- gi + 1)
  hook[before:make_string] mb <- m8
  post assert { forall a. f_cdr[result_] + 16 <= a < f_cdr[result_] + 16 + f_car[result_] -> m8[a] = mb[g_buf + (a - (f_cdr[result_] + 16))] }; assert { e < 0 -> forall j [text f_cdr_in m8_in p0 j]. 0 <= j < f_car[result_] -> mod mb[g_buf + j] 256 = text f_cdr_in m8_in p0 j }; (if e < 0 then copied mb m8 f_cdr_in m8_in p0 g_buf (f_cdr[result_] + 16) f_car[result_])
  loop
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[port] u__stdin = e
    inv[count] gi = if c < 0 then i else i + 1
    inv[buffer] 0 <= i <= g_MAX_STRING + 1 /\ -1 <= c <= 255
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ (e < 0 /\ a = p0))
    inv[string-port] e < 0 -> string_port f_type f_car f_cdr v8 g_cells g_free vs p0 /\ d_pos = d_pos_in /\ d_push = d_push_in
    inv[read] e < 0 -> left f_car_in f_cdr_in m8_in f_car f_cdr m8 p0 gi
    inv[length] e < 0 -> 0 <= i <= tlen f_car_in f_cdr_in p0
    inv[end] e < 0 -> c < 0 -> i = tlen f_car_in f_cdr_in p0
    inv[next] e < 0 -> 0 <= c -> i < tlen f_car_in f_cdr_in p0 /\ c = text f_cdr_in m8_in p0 i
    inv[characters] e < 0 -> forall j [text f_cdr_in m8_in p0 j]. 0 <= j < i -> mod m8[g_buf + j] 256 = text f_cdr_in m8_in p0 j
    inv[descriptor] e >= 0 -> d_left d_pos_in d_push_in d_pos d_push e gi
    inv[next] e >= 0 -> 0 <= c -> c = dtext d_pos_in d_push_in e i
    inv[characters] e >= 0 -> forall j. 0 <= j < i -> mod m8[g_buf + j] 256 = dtext d_pos_in d_push_in e j
    start ma <- m8
    variant g_MAX_STRING + 2 - i
