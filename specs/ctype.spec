fn isalnum
  file lib/ctype/isalnum.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_alnum c

fn isalpha
  file lib/ctype/isalpha.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_alpha c

fn isascii
  file lib/ctype/isascii.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_ascii c

fn iscntrl
  file lib/ctype/iscntrl.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_cntrl c

fn isdigit
  file lib/ctype/isdigit.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_digit c

fn isgraph
  file lib/ctype/isgraph.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_graph c

fn islower
  file lib/ctype/islower.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_lower c

fn isprint
  file lib/ctype/isprint.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_print c

fn ispunct
  file lib/ctype/ispunct.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_punct c

fn isspace
  file lib/ctype/isspace.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_space c

fn isupper
  file lib/ctype/isupper.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_upper c

fn isxdigit
  file lib/ctype/isxdigit.c
  params c
  uses ctype.Ctype
  ensures[class] result <> 0 <-> c_xdigit c

fn tolower
  file lib/ctype/tolower.c
  params c
  uses ctype.Ctype
  ensures[mapped] result = lower c

fn toupper
  file lib/ctype/toupper.c
  params c
  uses ctype.Ctype
  ensures[mapped] result = upper c

fn isnumber
  file lib/ctype/isnumber.c
  params c base
  uses ctype.Ctype
  requires 2 <= base <= 36
  ensures[digit-of-base] result <> 0 <-> digitval c < base
