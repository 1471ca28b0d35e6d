# ---------------------------------------------------------------- S12 the text that is written
# the contract of write (fdio.spec) with the kernel taking the whole text; o_text, o_n: what was written
extern out_write
  file lib/posix/write.c
  function write
  params filedes buffer size
  uses mem.Str out.Out
  requires[text] 0 <= size /\ range v8 buffer size
  requires filedes = o_fd
  writes o_text o_n
  ensures o_n = old o_n + size /\ appended o_text (old o_text) (old o_n) m8 buffer size
extern cast_intp_to_charp
  file lib/mes/cast.c
  params i
  uses mem.Str
  note the low byte of an int is the one at its address
  writes -
  ensures 0 < result /\ v8[result] /\ m8[result] = cast_s8 m32[i]

fn fdputc
  file lib/mes/fdputc.c
  params c fd
  uses mem.Str rdr.Rdr out.Out
  callas write out_write
  requires[descriptor] fd = o_fd
  writes o_text o_n v32 m32
  ensures[the-byte] o_n = old o_n + 1 /\ o_text[old o_n] = mod c 256
  ensures[kept] forall a. a < old o_n -> o_text[a] = (old o_text)[a]

fn fdputs
  file lib/mes/fdputs.c
  params s fd
  uses mem.Str rdr.Rdr out.Out
  callas write out_write
  requires[string] vstr m8 v8 s /\ slen m8 s <= 2147483646
  requires[descriptor] fd = o_fd
  writes o_text o_n
  ensures[the-text] o_n = old o_n + slen m8 s /\ appended o_text (old o_text) (old o_n) m8 s (slen m8 s)

fn fdwrite_string_char
  file src/display.c
  params v fd
  uses mem.Str rdr.Rdr out.Out
  requires[descriptor] fd = o_fd
  writes o_text o_n v32 m32
  hook[after:fdputs] assert { slen m8 $1 = 2 }; assert { o_text[o_n_in + 0] = u8 m8[$1 + (o_n_in + 0 - o_n_in)] /\ o_text[o_n_in + 1] = u8 m8[$1 + (o_n_in + 1 - o_n_in)] }
  ensures[the-character] o_n = old o_n + elen (u8 v) /\ esc_at o_text (old o_n) (u8 v)
  ensures[kept] forall a. a < old o_n -> o_text[a] = (old o_text)[a]

fn fdwrite_string
  file src/display.c
  params s length fd
  uses mem.Str rdr.Rdr out.Out
  requires[text] range v8 s length /\ forall a. s <= a < s + length -> -128 <= m8[a] <= 127
  requires[descriptor] fd = o_fd
  writes o_text o_n v32 m32
  ensures[the-text] 0 <= length -> o_n = old o_n + enclen m8 s length /\ encoded o_text (old o_n) m8 s length
  ensures[kept] old o_n <= o_n /\ forall a. a < old o_n -> o_text[a] = (old o_text)[a]
  loop
    inv[position] 0 <= i /\ (i <= length \/ i = 0) /\ o_n = o_n_in + enclen m8 s i
    inv[text] encoded o_text o_n_in m8 s i
    inv[kept] forall a. a < o_n_in -> o_text[a] = o_text_in[a]
    end encoded_step (pure { o_text at L0 }) o_text o_n_in m8 s (i - 1)
    variant length - i

fn fdwrite_char
  file src/display.c
  params v fd
  uses mem.Str rdr.Rdr out.Out
  requires 0 <= o_n
  requires[descriptor] fd = o_fd
  writes o_text o_n v32 m32
  hook[after:fdputs] assert { let n = slen m8 $1 in o_n = o_n_in + n /\ n <= 10 }; assert { forall k. 0 <= k < slen m8 $1 -> o_text[o_n_in + k] = u8 m8[$1 + k] by u8 m8[$1 + k] = u8 m8[$1 + (o_n_in + k - o_n_in)] }; assert { o_text[o_n_in + 0] = u8 m8[$1 + 0] /\ o_text[o_n_in + 1] = u8 m8[$1 + 1] /\ o_text[o_n_in + 2] = u8 m8[$1 + 2] /\ o_text[o_n_in + 3] = u8 m8[$1 + 3] }; (if pure { slen m8 $1 > 4 } then assert { o_text[o_n_in + 4] = u8 m8[$1 + 4] }); (if pure { slen m8 $1 > 5 } then assert { o_text[o_n_in + 5] = u8 m8[$1 + 5] }); (if pure { slen m8 $1 > 6 } then assert { o_text[o_n_in + 6] = u8 m8[$1 + 6] }); (if pure { slen m8 $1 > 7 } then assert { o_text[o_n_in + 7] = u8 m8[$1 + 7] }); (if pure { slen m8 $1 > 8 } then assert { o_text[o_n_in + 8] = u8 m8[$1 + 8] }); (if pure { slen m8 $1 > 9 } then assert { o_text[o_n_in + 9] = u8 m8[$1 + 9] })
  ensures[the-character] char_at o_text (old o_n) o_n (u8 v)
  ensures[kept] forall a. a < old o_n -> o_text[a] = (old o_text)[a]

fn reader_read_string
  file src/reader.c
  uses num.Num ctype.Ctype mem.Str scm.Strg out.Out
  opt wrap
  opt sp
  ghost k: int
  @TAKES
  @STRARENA
  @BUF
  callas readchar in_getc
  requires[closed] string_at r_pos k /\ 0 <= r_pos <= in_end
  writes r_pos
  ensures[string] f_type[result] = tSTRING /\ f_car[result] = k /\ wstr f_car f_cdr v8 result /\ old g_free <= result < g_free
  ensures[characters] forall a. f_cdr[result] + 16 <= a < f_cdr[result] + 16 + k -> mod m8[a] 256 = mod (svalue (spos (old r_pos) (a - f_cdr[result] - 16))) 256
  ensures[next] r_pos = spos (old r_pos) k + 1
  raises[only-when-too-long] Stop: k > g_MAX_STRING
  raises Full: true
  pre let ghost r = r_pos in
  hook[before:reader_read_hex] assert { c = 120 /\ inp[spos r i] = 92 /\ inp[spos r i + 1] = 120 /\ r_pos = spos r i + 2 }
  hook[after:in_getc] assert { g_free <= g_cells + 24 * g_ARENA_SIZE /\ g_cells <= (g_free at L0) <= g_free }; assert { forall a. g_buf <= a < g_buf + i -> m8[a] = (m8 at L0)[a] }
  hook[after:reader_read_hex] assert { g_free <= g_cells + 24 * g_ARENA_SIZE /\ g_cells <= (g_free at L0) <= g_free }; assert { forall a. g_buf <= a < g_buf + i -> m8[a] = (m8 at L0)[a] }; assert { f_cdr[$r] = cast_s64 (lit_value (spos r i + 2) 16) /\ r_pos = spos r (i + 1) }; cast_down (lit_value (spos r i + 2) 16)
  hook[before:make_string] assert { i = k }
  loop
    inv[position] 0 <= i <= k /\ i <= g_MAX_STRING + 1 /\ r_pos = spos r i /\ r_pos <= in_end
    inv[open] forall j. 0 <= j < i -> inp[spos r j] <> 34
    inv[text] forall a. g_buf <= a < g_buf + i -> mod m8[a] 256 = mod (svalue (spos r (a - g_buf))) 256
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    start spos_mono r i k; swidth_pos (spos r i); assert { inp[spos r k] = 34 /\ spos r k < in_end }; assert { spos r (i+1) = spos r i + swidth (spos r i) }; assert { i < k -> inp[spos r i] <> 34 }
    end assert { mod c 256 = mod (svalue (spos r (i - 1))) 256 }; assert { r_pos = spos r i }; assert { i - 1 < k }; assert { r_pos <= spos r k }; assert { forall a. g_buf <= a < g_buf + (i - 1) -> m8[a] = (m8 at L0)[a] }; assert { m8[g_buf + (i - 1)] = cast_s8 c }; assert { mod (cast_s8 c) 256 = mod c 256 }; assert { mod m8[g_buf + (i - 1)] 256 = mod (svalue (spos r (i - 1))) 256 }
    variant k - i

# display_helper for numbers, characters, strings, symbols and keywords; the other types are outside of this contract
extern num_text
  file lib/mes/ltoa.c
  function ltoa
  params x
  uses mem.Str ctype.Ctype num.Num num.Render
  writes m8
  requires 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  ensures if x < 0 then m8[result] = 45 /\ numeral m8 (result+1) 10 (0 - x) else numeral m8 result 10 x
  ensures u__itoa_buf <= result /\ result + (if x < 0 then 1 + slen m8 (result+1) else slen m8 result) < u__itoa_buf + 66
  ensures forall a. not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
extern none_display
  file src/display.c
  function display_helper
  params x cont sep fd write_p
  writes -
  requires false
extern none_fdisplay
  file src/display.c
  function fdisplay_
  params x fd write_p
  writes -
  requires false
extern none_itoa
  file lib/mes/itoa.c
  function itoa
  params x
  writes -
  requires false
extern none_struct_ref
  file src/struct.c
  function struct_ref_
  params x i
  writes -
  requires false
extern none_builtin_p
  file src/builtins.c
  function builtin_p
  params x
  writes -
  requires false
extern none_apply
  file src/core.c
  function apply
  params f x a
  writes -
  requires false
extern none_cons
  file src/gc.c
  function cons
  params x y
  writes -
  requires false
macro DISPLAY
  uses mem.Str scm.Strg num.Num num.Render ctype.Ctype rdr.Rdr out.Out scm.Env
  @ARENA
  callas ltoa num_text
  callas write out_write
  callas display_helper none_display
  callas fdisplay_ none_fdisplay
  callas itoa none_itoa
  callas struct_ref_ none_struct_ref
  callas builtin_p none_builtin_p
  callas apply none_apply
  callas cons none_cons
  reads u__itoa_buf g_R0
  requires[known-type] let t = f_type[x] in vs[x] /\ 0 <= t <= 17 /\ (t = tNUMBER \/ t = tCHAR \/ t = tSTRING \/ t = tSYMBOL \/ t = tSPECIAL \/ t = tKEYWORD)
  requires[text] f_type[x] <> tNUMBER /\ f_type[x] <> tCHAR -> wstr f_car f_cdr v8 x /\ f_car[x] <= 2147483647 /\ forall a. f_cdr[x] + 16 <= a < f_cdr[x] + 16 + f_car[x] -> -128 <= m8[a] <= 127
  requires[buffer] 0 < u__itoa_buf /\ range v8 u__itoa_buf 66
  requires 0 <= o_n
  writes o_text o_n v32 m32 m8 g_depth
endmacro
fn display_helper
  file src/display.c
  params x cont sep fd write_p
  opt sp
  @DISPLAY
  requires[separator] vstr m8 v8 sep /\ slen m8 sep <= 1000
  requires[separator] g_depth <> 0 /\ -2147483648 < g_depth
  requires[descriptor] fd = o_fd
  pre let ghost q = o_n + slen m8 sep in let ghost ref nr = 0 in let ghost ref t1 = o_text in let ghost ty = f_type[x] in let ghost v = f_cdr[x] in let ghost ln = f_car[x] in
  hook[after:num_text] nr <- $r; (if $1 < 0 then numeral_text m8 $r $1)
  hook[after:fdputs] assert { slen m8 $1 > 0 -> o_text[o_n - slen m8 $1] = u8 m8[$1 + (o_n - slen m8 $1 - (o_n - slen m8 $1))] }
  hook[after:fdwrite_string] t1 <- o_text
  hook[before:fdwrite_char] low_byte v
  hook[return] (if ty = tNUMBER then number_written o_text m8 q nr (slen m8 nr) v); (if ty = tSTRING && write_p = 1 then encoded_kept t1 o_text (q+1) m8 (v+16) ln)
  ensures[number] f_type[x] = tNUMBER -> number_at o_text (old o_n + slen (old m8) sep) o_n f_cdr[x]
  ensures[character-written] f_type[x] = tCHAR -> write_p <> 0 -> in_s32 f_cdr[x] -> o_text[old o_n + slen (old m8) sep] = 35 /\ char_at o_text (old o_n + slen (old m8) sep + 1) o_n (mod f_cdr[x] 256)
  ensures[character-displayed] f_type[x] = tCHAR -> write_p = 0 -> in_s32 f_cdr[x] -> o_text[old o_n + slen (old m8) sep] = mod f_cdr[x] 256 /\ o_n = old o_n + slen (old m8) sep + 1
  ensures[string-written] f_type[x] = tSTRING -> write_p = 1 -> let q = old o_n + slen (old m8) sep in o_text[q] = 34 /\ encoded o_text (q+1) (old m8) (f_cdr[x] + 16) f_car[x] /\ o_text[q + 1 + enclen (old m8) (f_cdr[x] + 16) f_car[x]] = 34 /\ o_n = q + 2 + enclen (old m8) (f_cdr[x] + 16) f_car[x]
  ensures[string-displayed] f_type[x] = tSTRING -> write_p <> 1 -> let q = old o_n + slen (old m8) sep in o_n = q + f_car[x] /\ forall a. q <= a < o_n -> o_text[a] = u8 (old m8)[f_cdr[x] + 16 + (a - q)]
  ensures[symbol] f_type[x] = tSYMBOL \/ f_type[x] = tSPECIAL -> let q = old o_n + slen (old m8) sep in o_n = q + enclen (old m8) (f_cdr[x] + 16) f_car[x] /\ encoded o_text q (old m8) (f_cdr[x] + 16) f_car[x]
  ensures[separator] forall a. old o_n <= a < old o_n + slen (old m8) sep -> o_text[a] = u8 (old m8)[sep + (a - old o_n)]
  ensures[kept] forall a. a < old o_n -> o_text[a] = (old o_text)[a]
  ensures[kept] forall a. not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]

macro SHOWN
  ensures[number] f_type[x] = tNUMBER -> number_at o_text (old o_n) o_n f_cdr[x]
  ensures[character-written] f_type[x] = tCHAR -> %1 <> 0 -> in_s32 f_cdr[x] -> o_text[old o_n] = 35 /\ char_at o_text (old o_n + 1) o_n (mod f_cdr[x] 256)
  ensures[character-displayed] f_type[x] = tCHAR -> %1 = 0 -> in_s32 f_cdr[x] -> o_text[old o_n] = mod f_cdr[x] 256 /\ o_n = old o_n + 1
  ensures[string-written] f_type[x] = tSTRING -> %1 = 1 -> let q = old o_n in o_text[q] = 34 /\ encoded o_text (q+1) (old m8) (f_cdr[x] + 16) f_car[x] /\ o_text[q + 1 + enclen (old m8) (f_cdr[x] + 16) f_car[x]] = 34 /\ o_n = q + 2 + enclen (old m8) (f_cdr[x] + 16) f_car[x]
  ensures[string-displayed] f_type[x] = tSTRING -> %1 <> 1 -> let q = old o_n in o_n = q + f_car[x] /\ forall a. q <= a < o_n -> o_text[a] = u8 (old m8)[f_cdr[x] + 16 + (a - q)]
  ensures[symbol] f_type[x] = tSYMBOL \/ f_type[x] = tSPECIAL -> let q = old o_n in o_n = q + enclen (old m8) (f_cdr[x] + 16) f_car[x] /\ encoded o_text q (old m8) (f_cdr[x] + 16) f_car[x]
  ensures[kept] forall a. a < old o_n -> o_text[a] = (old o_text)[a]
  ensures[kept] forall a. not (u__itoa_buf <= a < u__itoa_buf + 66) -> m8[a] = (old m8)[a]
endmacro
fn fdisplay_
  file src/display.c
  params x fd write_p
  @DISPLAY
  callas display_helper display_helper
  requires[descriptor] fd = o_fd
  @SHOWN write_p
fn write_
  file src/display.c
  params x
  @DISPLAY
  callas display_helper display_helper
  requires[descriptor] u__stdout = o_fd
  @SHOWN 1
fn display_
  file src/display.c
  params x
  @DISPLAY
  callas display_helper display_helper
  requires[descriptor] u__stdout = o_fd
  @SHOWN 0
fn write_port_
  file src/display.c
  params x p
  @DISPLAY
  callas display_helper display_helper
  callas fdisplay_ fdisplay_
  reads cell_symbol_system_error
  requires[descriptor] vs[p] /\ (f_type[p] = tNUMBER -> f_cdr[p] = o_fd /\ in_s32 o_fd)
  raises[not-a-descriptor] Stop: f_type[p] <> tNUMBER
  @SHOWN 1
fn display_port_
  file src/display.c
  params x p
  @DISPLAY
  callas display_helper display_helper
  callas fdisplay_ fdisplay_
  reads cell_symbol_system_error
  requires[descriptor] vs[p] /\ (f_type[p] = tNUMBER -> f_cdr[p] = o_fd /\ in_s32 o_fd)
  raises[not-a-descriptor] Stop: f_type[p] <> tNUMBER
  @SHOWN 0
