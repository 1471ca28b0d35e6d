# ---------------------------------------------------------------- S11 the reader's numerals and characters
# the contracts of readchar, peekchar and unreadchar (port.spec), the current port's remaining text seen as (inp, r_pos)
macro TAKES
  @ARENA
  uses rdr.Rdr
  requires[port] in_port < g_free
  writes g_free f_type f_car f_cdr m8
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  ensures[arena] old g_free <= g_free
  ensures[existing-kept] forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ (f_cdr[a] = (old f_cdr)[a] \/ a = in_port)
endmacro
macro TEXTKEPT
  ensures[existing-kept] forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
endmacro
extern in_getc
  file src/posix.c
  function readchar
  @TAKES
  @TEXTKEPT
  writes r_pos
  ensures result = inp[old r_pos] /\ -1 <= result <= 255
  ensures r_pos = if result < 0 then old r_pos else old r_pos + 1
  raises Full: true
extern in_peekc
  file src/posix.c
  function peekchar
  uses rdr.Rdr
  writes -
  reads r_pos
  ensures result = inp[r_pos] /\ -1 <= result <= 255
extern in_unread
  file src/posix.c
  function unreadchar
  params c
  @TAKES
  @TEXTKEPT
  requires c = -1 \/ c = inp[r_pos - 1]
  writes r_pos
  ensures result = c
  ensures r_pos = if c < 0 then old r_pos else old r_pos - 1
  raises Full: true

macro RADIX
  pre let ghost ref gv = 0 in
  file src/reader.c
  opt wrap
  uses num.Num ctype.Ctype
  @TAKES
  @TEXTKEPT
  callas readchar in_getc
  callas peekchar in_peekc
  requires[text] r_pos <= in_end
  writes r_pos
  ensures[number] f_type[result] = tNUMBER /\ old g_free <= result < g_free /\ vs[result]
  ensures[value] in_s64 (lit_value (old r_pos) %1) -> f_cdr[result] = lit_value (old r_pos) %1
  ensures[value-mod] f_cdr[result] = cast_s64 (lit_value (old r_pos) %1)
  ensures[next] r_pos = lit_end (old r_pos) %1
  raises Stop: false
  raises Full: true
  loop
    inv[position] lit_start r_pos_in <= r_pos <= in_end /\ c = inp[r_pos]
    inv[sign] negative_p <> 0 <-> inp[r_pos_in] = 45
    inv[digits] forall a. lit_start r_pos_in <= a < r_pos -> digitval inp[a] < %1
    inv[value] n = cast_s64 (nv inp (lit_start r_pos_in) (r_pos - lit_start r_pos_in) %1)
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    inv[memory] forall a. not (g_free_in <= a < g_free) -> m8[a] = m8_in[a]
    start gv <- nv inp (lit_start r_pos_in) (r_pos - lit_start r_pos_in) %1; %2
    end let q = lit_start r_pos_in in let c0 = pure { c at L0 } in assert { gv = nv inp q (r_pos - 1 - q) %1 /\ c0 = inp[r_pos - 1] }; (if c0 >= 97 then assert { n = cast_s64 (gv * %1 + c0 - 87) } else if c0 >= 65 then assert { n = cast_s64 (gv * %1 + c0 - 55) } else assert { n = cast_s64 (gv * %1 + c0 - 48) }); assert { n = cast_s64 (gv * %1 + digitval inp[r_pos - 1]) }; assert { nv inp q (r_pos - q) %1 = gv * %1 + digitval inp[r_pos - 1] }
    variant in_end - r_pos
    after let q = lit_start r_pos_in in dgl_is inp q %1 (r_pos - q); neg_step (nv inp q (r_pos - q) %1)
endmacro
fn reader_read_binary
  @RADIX 2; num_step gv 2 c 48
fn reader_read_octal
  @RADIX 8; num_step gv 8 c 48
fn reader_read_hex
  @RADIX 16; assert { c = inp[r_pos] }; assert { 48 <= c <= 57 \/ 65 <= c <= 70 \/ 97 <= c <= 102 -> digitval c < 16 /\ digitval c = if c >= 97 then c - 87 else if c >= 65 then c - 55 else c - 48 }; (if c >= 97 then hex_step gv c 97 else if c >= 65 then hex_step gv c 65 else num_step gv 16 c 48)

fn reader_end_of_word_p
  file src/reader.c
  params c
  uses rdr.Rdr ctype.Ctype
  ensures[class] result <> 0 <-> eow c

# the text in the buffer is taken for a symbol's name
extern name_symbol
  file src/string.c
  function cstring_to_symbol
  params s
  @ALLOCS
  ensures forall a. a < old g_free -> f_type[a] = (old f_type)[a] /\ f_car[a] = (old f_car)[a] /\ f_cdr[a] = (old f_cdr)[a]
  writes m8
  requires vstr m8 v8 s
  ensures old g_free <= result < g_free \/ result < old g_free
  ensures f_type[result] = tSYMBOL \/ f_type[result] = tSPECIAL
  ensures forall a. not (old g_free <= a < g_free) -> m8[a] = (old m8)[a]
  raises Stop: true
  raises Full: true

fn reader_read_identifier_or_number
  file src/reader.c
  params c
  opt wrap
  opt sp
  uses num.Num ctype.Ctype
  @TAKES
  @STRARENA
  @BUF
  callas readchar in_getc
  callas peekchar in_peekc
  callas unreadchar in_unread
  callas cstring_to_symbol name_symbol
  reads cell_symbol_system_error cell_f
  requires[text] 0 <= c /\ c = inp[r_pos - 1] /\ r_pos <= in_end /\ in_end - r_pos <= 1000000000000
  writes r_pos
  ensures[number] is_dec (old r_pos - 1) -> f_type[result] = tNUMBER /\ old g_free <= result < g_free
  ensures[value] is_dec (old r_pos - 1) -> in_s64 (dec_value (old r_pos - 1)) -> f_cdr[result] = dec_value (old r_pos - 1)
  ensures[value-mod] is_dec (old r_pos - 1) -> f_cdr[result] = cast_s64 (dec_value (old r_pos - 1))
  ensures[next] is_dec (old r_pos - 1) -> r_pos = dec_end (old r_pos - 1)
  ensures[symbol] not is_dec (old r_pos - 1) -> f_type[result] = tSYMBOL \/ f_type[result] = tSPECIAL
  ensures[next] not is_dec (old r_pos - 1) -> word_end (old r_pos - 1) r_pos
  raises[only-when-too-long] Stop: not is_dec (old r_pos - 1) \/ dec_end (old r_pos - 1) - old r_pos >= g_MAX_STRING
  raises Full: true
  pre let ghost ref gv = 0 in let ghost p = r_pos - 1 in
  hook[before:in_getc] assert { 0 <= c <= 255 }; assert { cast_s8 c = if c < 128 then c else c - 256 }; assert { mod m8[g_buf + i - 1] 256 = c }; assert { c = inp[p + i - 1] }; assert { g_free <= g_cells + 24 * g_ARENA_SIZE }
  hook[before:name_symbol] slen_some m8 g_buf i; assert { m8[g_buf + i] = 0 /\ forall a. g_buf <= a < g_buf + i -> mod m8[a] 256 = inp[p + (a - g_buf)] }; assert { word_end p (p + i) /\ r_pos = p + i }
  loop
    inv[position] dec_start p <= p + i /\ i <= g_MAX_STRING + 1 /\ p + i <= in_end
    inv[position] c = inp[p + i] /\ r_pos = if c < 0 then p + i else p + i + 1
    inv[sign] negative_p <> 0 <-> (dec_start p <> p /\ inp[p] = 45)
    inv[digits] forall a. dec_start p <= a < p + i -> c_digit inp[a]
    inv[value] n = cast_s64 (nv inp (dec_start p) (p + i - dec_start p) 10)
    inv[text] forall a. g_buf <= a < g_buf + i -> mod m8[a] 256 = inp[p + (a - g_buf)]
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    start gv <- nv inp (dec_start p) (p + i - dec_start p) 10; num_step gv 10 c 48; (if i > g_MAX_STRING then (let q = dec_start p in assert { forall a. q <= a < p + i -> digitval inp[a] < 10 }; dgl_min q 10 (p + i - q); assert { dec_end p >= p + i }))
    end let q = dec_start p in assert { c_digit inp[p + i - 1] }; assert { gv = nv inp q (p + i - 1 - q) 10 }; assert { n = cast_s64 (gv * 10 + digitval inp[p + i - 1]) }; assert { nv inp q (p + i - q) 10 = gv * 10 + digitval inp[p + i - 1] }
    variant in_end - (p + i)
    after let q = dec_start p in assert { forall a. q <= a < p + i -> digitval inp[a] < 10 }; dgl_is inp q 10 (p + i - q); neg_step (nv inp q (p + i - q) 10); assert { dec_end p = p + i }; assert { dec_value p = if negative_p <> 0 then 0 - nv inp q (p + i - q) 10 else nv inp q (p + i - q) 10 }; assert { is_dec p <-> eow c }; assert { cast_s64 (dec_value p) = if negative_p <> 0 then cast_s64 (0 - n) else n }
  loop
    inv[position] dec_end p <= p + i /\ i <= g_MAX_STRING + 1 /\ p + i <= in_end
    inv[position] c = inp[p + i] /\ r_pos = if c < 0 then p + i else p + i + 1
    inv[word] not is_dec p /\ forall a. p <= a < p + i -> not eow inp[a]
    inv[text] forall a. g_buf <= a < g_buf + i -> mod m8[a] 256 = inp[p + (a - g_buf)]
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    end assert { not is_dec p }; assert { not eow inp[p + i - 1] }; assert { forall a. p <= a < p + i -> a < p + i - 1 \/ a = p + i - 1 }; assert { mod m8[g_buf + i - 1] 256 = inp[p + i - 1] }; assert { forall a. g_buf <= a < g_buf + i - 1 -> mod m8[a] 256 = inp[p + (a - g_buf)] }
    variant in_end - (p + i)

fn reader_read_character
  file src/reader.c
  opt wrap
  opt sp
  uses num.Num ctype.Ctype mem.Str scm.Strg
  @TAKES
  @STRARENA
  callas readchar in_getc
  callas peekchar in_peekc
  reads cell_symbol_system_error cell_f u__reader_read_char_buf
  requires[text] r_pos <= in_end /\ in_end - r_pos <= 1000000000000
  writes r_pos
  requires[buffer] 0 < u__reader_read_char_buf /\ range v8 u__reader_read_char_buf 10 /\ disjoint u__reader_read_char_buf 10 g_cells (24 * g_ARENA_SIZE)
  ensures[character] f_type[result] = tCHAR /\ old g_free <= result < g_free
  ensures[octal] oct_char inp[old r_pos] /\ oct_char inp[old r_pos + 1] -> f_cdr[result] = cast_s32 (nv inp (old r_pos) (dgl inp (old r_pos) 8) 8) /\ r_pos = old r_pos + dgl inp (old r_pos) 8
  ensures[hexadecimal] inp[old r_pos] = 120 /\ hex_char inp[old r_pos + 1] -> f_cdr[result] = cast_s32 (lit_value (old r_pos + 1) 16) /\ r_pos = lit_end (old r_pos + 1) 16
  ensures[name] named (old r_pos) -> known_name (old r_pos) /\ f_cdr[result] = name_value (old r_pos) /\ r_pos = name_end (old r_pos)
  ensures[itself] not (oct_char inp[old r_pos] /\ oct_char inp[old r_pos + 1]) -> not (inp[old r_pos] = 120 /\ hex_char inp[old r_pos + 1]) -> not named (old r_pos) -> f_cdr[result] = inp[old r_pos] /\ (inp[old r_pos] >= 0 -> r_pos = old r_pos + 1)
  raises[only-unknown-names] Stop: named (old r_pos) /\ not known_name (old r_pos)
  raises Full: true
  pre let ghost q = r_pos in let ghost ref gv = 0 in
  hook[before:strcmp] slen_is m8 buf i
  hook[before:make_string0#0] assert { m8[buf + 1] = inp[q + (buf + 1 - buf)] /\ name_char m8[buf + 1] /\ m8[buf + 2] = inp[q + (buf + 2 - buf)] /\ name_char m8[buf + 2] /\ m8[buf + 3] = inp[q + (buf + 3 - buf)] /\ name_char m8[buf + 3] /\ m8[buf + 4] = inp[q + (buf + 4 - buf)] /\ name_char m8[buf + 4] /\ m8[buf + 5] = inp[q + (buf + 5 - buf)] /\ name_char m8[buf + 5] /\ m8[buf + 6] = inp[q + (buf + 6 - buf)] /\ name_char m8[buf + 6] /\ m8[buf + 7] = inp[q + (buf + 7 - buf)] /\ name_char m8[buf + 7] /\ m8[buf + 8] = inp[q + (buf + 8 - buf)] /\ name_char m8[buf + 8] }; assert { i = 9 }; assert { name_char inp[q + 2] /\ name_char inp[q + 3] /\ name_char inp[q + 4] /\ name_char inp[q + 5] /\ name_char inp[q + 6] /\ name_char inp[q + 7] /\ name_char inp[q + 8] /\ name_char inp[q + 9] }
  hook[after:strcmp#0] cmp_seofs m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = -1 /\ name_end q = q + 5 }
  hook[after:strcmp#1] cmp_nul m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 0 /\ name_end q = q + 3 }
  hook[after:strcmp#2] cmp_alarm m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 7 /\ name_end q = q + 5 }
  hook[after:strcmp#3] cmp_backspace m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 8 /\ name_end q = q + 9 }
  hook[after:strcmp#4] cmp_tab m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 9 /\ name_end q = q + 3 }
  hook[after:strcmp#5] cmp_linefeed m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 10 /\ name_end q = q + 8 }
  hook[after:strcmp#6] cmp_newline m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 10 /\ name_end q = q + 7 }
  hook[after:strcmp#7] cmp_vtab m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 11 /\ name_end q = q + 4 }
  hook[after:strcmp#8] cmp_page m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 12 /\ name_end q = q + 4 }
  hook[after:strcmp#9] cmp_return m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 13 /\ name_end q = q + 6 }
  hook[after:strcmp#10] cmp_esc m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 27 /\ name_end q = q + 3 }
  hook[after:strcmp#11] cmp_space m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 32 /\ name_end q = q + 5 }
  hook[after:strcmp#12] cmp_bel m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 7 /\ name_end q = q + 3 }
  hook[after:strcmp#13] cmp_bs m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 8 /\ name_end q = q + 2 }
  hook[after:strcmp#14] cmp_ht m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 9 /\ name_end q = q + 2 }
  hook[after:strcmp#15] cmp_vt m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 11 /\ name_end q = q + 2 }
  hook[after:strcmp#16] cmp_cr m8 $1 $2 i q $r; assert { $r = 0 -> known_name q /\ name_value q = 13 /\ name_end q = q + 2 }
  loop
    inv[position] r_pos_in + 1 <= r_pos <= in_end /\ p = inp[r_pos]
    inv[digits] forall a. r_pos_in <= a < r_pos -> digitval inp[a] < 8
    inv[value] c = cast_s32 (nv inp r_pos_in (r_pos - r_pos_in) 8)
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    start gv <- nv inp r_pos_in (r_pos - r_pos_in) 8
    variant in_end - r_pos
    after dgl_is inp q 8 (r_pos - q)
  loop
    inv[position] 1 <= i <= 9 /\ r_pos = q + i /\ r_pos <= in_end /\ p = inp[r_pos]
    inv[name] forall a. buf <= a < buf + i -> m8[a] = inp[q + (a - buf)] /\ name_char m8[a]
    inv[arena] arena vs v8 g_cells g_free g_ARENA_SIZE /\ g_free_in <= g_free
    inv[objects] forall a. a < g_free_in -> f_type[a] = f_type_in[a] /\ f_car[a] = f_car_in[a] /\ (f_cdr[a] = f_cdr_in[a] \/ a = in_port)
    variant in_end - r_pos
    after assert { forall a. buf <= a < buf + i -> m8[a] <> 0 }

# "#b", "#o", "#x", "#\": other syntax is outside of this contract
extern none_comment
  file src/reader.c
  function reader_read_block_comment
  params s c
  writes -
  requires false
extern none_sexp
  file src/reader.c
  function reader_read_sexp_
  params c a
  writes -
  requires false
extern none_list
  file src/reader.c
  function reader_read_list
  params c a
  writes -
  requires false
extern none_vector
  file src/vector.c
  function list_to_vector
  params x
  writes -
  requires false
extern none_keyword
  file src/string.c
  function symbol_to_keyword
  params s
  writes -
  requires false
extern none_word
  file src/reader.c
  function reader_read_identifier_or_number
  params c
  writes -
  requires false
fn reader_read_hash
  file src/reader.c
  params c a
  uses num.Num ctype.Ctype mem.Str scm.Strg
  @TAKES
  @STRARENA
  callas readchar in_getc
  callas peekchar in_peekc
  callas reader_read_block_comment none_comment
  callas reader_read_sexp_ none_sexp
  callas reader_read_list none_list
  callas list_to_vector none_vector
  callas symbol_to_keyword none_keyword
  callas reader_read_identifier_or_number none_word
  requires[text] r_pos <= in_end /\ in_end - r_pos <= 1000000000000
  requires[buffer] 0 < u__reader_read_char_buf /\ range v8 u__reader_read_char_buf 10 /\ disjoint u__reader_read_char_buf 10 g_cells (24 * g_ARENA_SIZE)
  requires[literal] c = 98 \/ c = 111 \/ c = 120 \/ c = 92
  reads u__reader_read_char_buf
  writes r_pos
  ensures[number] c <> 92 -> let b = if c = 98 then 2 else if c = 111 then 8 else 16 in f_type[result] = tNUMBER /\ (in_s64 (lit_value (old r_pos) b) -> f_cdr[result] = lit_value (old r_pos) b) /\ r_pos = lit_end (old r_pos) b
  ensures[character] c = 92 -> f_type[result] = tCHAR
  ensures[character] c = 92 -> named (old r_pos) -> known_name (old r_pos) /\ f_cdr[result] = name_value (old r_pos) /\ r_pos = name_end (old r_pos)
  ensures[character] c = 92 -> oct_char inp[old r_pos] /\ oct_char inp[old r_pos + 1] -> f_cdr[result] = cast_s32 (nv inp (old r_pos) (dgl inp (old r_pos) 8) 8) /\ r_pos = old r_pos + dgl inp (old r_pos) 8
  ensures[character] c = 92 -> inp[old r_pos] = 120 /\ hex_char inp[old r_pos + 1] -> f_cdr[result] = cast_s32 (lit_value (old r_pos + 1) 16) /\ r_pos = lit_end (old r_pos + 1) 16
  ensures[character] c = 92 -> not (oct_char inp[old r_pos] /\ oct_char inp[old r_pos + 1]) -> not (inp[old r_pos] = 120 /\ hex_char inp[old r_pos + 1]) -> not named (old r_pos) -> f_cdr[result] = inp[old r_pos] /\ (inp[old r_pos] >= 0 -> r_pos = old r_pos + 1)
  raises[only-unknown-names] Stop: c = 92 /\ named (old r_pos) /\ not known_name (old r_pos)
  raises Full: true
