"""property -> functions under contract, lemma modules, replay program"""
R = {}
def prop(id, fns='', lemmas='', replay=None, engine=None, flags='', harness_only='', note=''):
    R[id] = dict(id=id, fns=fns.split(), lemmas=lemmas.split(), replay=replay or (id if engine is None else None), engine=engine, note=note)

prop('L01', '_memcpy memcpy __memcpy memmove __memmove _memset memset __memset bzero bcopy')
prop('L02', 'strlen strcpy strncpy strcat strncat strlwr strupr strdup')
prop('L03', 'memcmp bcmp strcmp strncmp')
prop('L04', 'memchr strchr strrchr index rindex _memmem memmem strstr strpbrk strspn strcspn')
prop('L05', 'isalnum isalpha isascii iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit isnumber tolower toupper')
prop('L06', 'ntoab itoa ltoa ltoab ultoa utoa __mesabi_uldiv', lemmas='num', note='malloc (66) succeeds')
prop('L07', 'abtol atoi atol strtol strtoul strtoll strtoull', lemmas='num')
prop('L08', 'qswap qpart qsort', lemmas='sort', note='the comparison function decides a total preorder on the contents of the elements and only reads them')
prop('L09', 'malloc calloc realloc free brk')
prop('L10', 'getenv setenv unsetenv', lemmas='env', note='the name contains no =; malloc as under contract for L09')
prop('L11', '_read __buffered_read_init __buffered_read_clear __buffered_read_restore __buffered_read read __ungetc_init __ungetc_p __ungetc_clear __ungetc_set fdungetc fdgetc fgetc getc getchar ungetc fdgets fgets __fungetc_p fread lseek write close _open3', lemmas='fdio', note='malloc of the read buffers and the push-back table succeeds; the kernel reads, writes and seeks as modelled in specs/fdio.mlw (kernel_read, kernel_write, kernel_lseek); blocks do not overlap the environment strings; the size of a request is below 2^62')
prop('L13', '_sys_call _sys_call1 _sys_call2 _sys_call3 _sys_call4 access chdir chmod clock_gettime dup dup2 execve fork fstat fsync getdents getegid geteuid getgid getpid getppid getrusage gettimeofday getuid ioctl3 kill link _lseek lstat mkdir mknod nanosleep pipe readlink rename rmdir setgid setitimer setuid sigprocmask stat symlink unlink waitpid _getcwd')
prop('L14', '__mesabi_log2i __mesabi_uldiv1 div_uldiv __mesabi_ldiv __mesabi_idiv __mesabi_imod __mesabi_udiv __mesabi_umod __divdi3 __moddi3 __udivdi3 __umoddi3', lemmas='div')
prop('L15', 'search_path execvp', lemmas='path', note='whether access lets a name be executed depends on its characters only and does not change during a search')
prop('S01', 'gc_copy gc_relocate_car gc_relocate_cdr gc_cellcpy gc_init_news gc_flip gc_loop gc_ gc gc_push_frame gc_peek_frame gc_pop_frame bytes_cells cell_bytes cell_ref some_address', lemmas='gc', note='the heap is well formed when the collection starts (predicate world in specs/gc.mlw: references lead to objects, elements of vectors are not referred to directly, bytes objects are below 2 GiB); gc_up_arena is not reached (its condition is never true in this build); the debug output and MES_DUMP change nothing')
prop('S02', 'alloc make_cell make_pointer_cell make_value_cell cons make_char make_number make_ref make_macro make_continuation cell_bytes cell_ref bytes_cells make_bytes make_vector_ make_struct make_string make_string0 make_string_port values acons', lemmas='scm')
prop('S03', 'car cdr set_car_x set_cdr_x list null_p pair_p values acons length__ length last_pair reverse_x_ append_reverse append2 memq assq assoc_string xassq assoc', lemmas='scm')
prop('S04', 'string_equal_p eq_p equal2_p', lemmas='scm')
prop('S06', 'assert_number copy_cell vector_entry make_vector_ make_vector vector_length vector_ref_ vector_ref vector_set_x_ vector_set_x make_struct struct_length struct_ref_ struct_ref struct_set_x_ struct_set_x list_to_vector vector_to_list', lemmas='scm')
prop('S13', 'current_input_port set_current_input_port make_string_port open_input_string readchar peekchar unreadchar read_byte peek_byte unread_byte read_char peek_char unread_char read_string make_string', lemmas='scm', note='fdgetc and fdungetc as their contracts under L11 say; a character is unread only if none is pushed back')
prop('S14', 'car cdr set_car_x set_cdr_x string_equal_p assert_number make_vector vector_length vector_ref_ vector_ref vector_set_x_ vector_set_x vector_to_list struct_length struct_ref_ struct_ref struct_set_x_ struct_set_x append2 append_reverse reverse_x_ string_length string_ref string_append', lemmas='scm')
prop('S05', 'assert_number greater_p less_p is_p plus minus multiply divide modulo logand logior logxor lognot ash', lemmas='scm')
prop('S07', 'assert_max_string make_string make_string0 symbol_to_string symbol_to_keyword keyword_to_string bytes_to_list cstring_to_list string_to_list string_length string_ref list_to_cstring list_to_string string_append string_equal_p', lemmas='scm')
prop('S08', 'make_symbol string_to_symbol hash_ref hash_set_x hash_set_x_ hash_ hash_cstring assoc assoc_string string_equal_p equal2_p make_pointer_cell', lemmas='scm')
prop('S09', 'hash_cstring hashq_ hash_ hashq_get_handle hashq_ref hash_ref hash_set_x_ hashq_set_x hash_set_x make_hashq_type make_hash_table_ make_hash_table assq assoc acons struct_ref_ vector_ref_ vector_set_x_ make_struct make_vector_', lemmas='scm')
prop('S11', 'reader_read_binary reader_read_octal reader_read_hex reader_end_of_word_p reader_read_identifier_or_number reader_read_character reader_read_hash fdwrite_char fdputc fdputs display_helper fdisplay_ write_ display_ write_port_ display_port_ ltoa ntoab strcmp strlen isdigit isspace make_number make_char make_pointer_cell', lemmas='num rdr out', note='reader_read_sexp_ (dispatch on the first character) is covered by the round-trip harness only: bounded, not counted as proved')
prop('S12', 'fdputc fdputs fdwrite_string_char fdwrite_string display_helper fdisplay_ write_ display_ write_port_ display_port_ reader_read_string reader_read_hex make_string make_bytes', lemmas='rdr out', note='reader_read_sexp_ and displaying lists (recursion over elements) are covered by the round-trip harness only: bounded, not counted as proved')
prop('S10', 'assert_defined check_formals pairlis module_variable module_ref module_define_x set_env_x make_closure_ make_variable_ call_lambda add_formals formal_p gc_push_frame gc_peek_frame gc_pop_frame push_cc assq hashq_get_handle hashq_set_x length__ set_cdr_x', lemmas='scm', note='the evaluator (eval_apply, expand_variable_) itself is compared with a reference evaluator on random programs: bounded, not counted as proved')
