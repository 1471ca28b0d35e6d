# ---------------------------------------------------------------- L01 blocks
fn _memcpy
  file lib/string/memcpy.c
  params dest src n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires[write-inside] range v8 dest n
  requires[read-inside] range v8 src n
  writes m8
  ensures[returns-dest] result = dest
  ensures[copied] dest <= src \/ disjoint dest n src n -> forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[copied-before-overlap] forall a. dest <= a < dest + n -> src < dest -> a - dest < dest - src -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = dest - dest_0 /\ src - src_0 = dest - dest_0 /\ p = dest_0
    inv[copied] forall a. dest_0 <= a < dest -> (dest_0 <= src_0 \/ a - dest_0 < dest_0 - src_0) -> m8[a] = (old m8)[src_0 + (a - dest_0)]
    inv[frame] forall a. not (dest_0 <= a < dest) -> m8[a] = (old m8)[a]
    variant n

fn memcpy
  file lib/string/memcpy.c
  params dest src n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires[write-inside] range v8 dest n
  requires[read-inside] range v8 src n
  writes m8
  ensures[returns-dest] result = dest
  ensures[copied] dest <= src \/ disjoint dest n src n -> forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[copied-before-overlap] forall a. dest <= a < dest + n -> src < dest -> a - dest < dest - src -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = dest - dest_0 /\ src - src_0 = dest - dest_0
    inv[copied] forall a. dest_0 <= a < dest -> (dest_0 <= src_0 \/ a - dest_0 < dest_0 - src_0) -> m8[a] = (old m8)[src_0 + (a - dest_0)]
    inv[frame] forall a. not (dest_0 <= a < dest) -> m8[a] = (old m8)[a]
    variant n

fn __memcpy
  file lib/string/__memcpy.c
  params dest src n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires range v8 dest n
  requires range v8 src n
  writes m8
  ensures[returns-dest] result = dest
  ensures[copied] dest <= src \/ disjoint dest n src n -> forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[copied-before-overlap] forall a. dest <= a < dest + n -> src < dest -> a - dest < dest - src -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = p - dest /\ q - src = p - dest
    inv[copied] forall a. dest <= a < p -> (dest <= src \/ a - dest < dest - src) -> m8[a] = (old m8)[src + (a - dest)]
    inv[frame] forall a. not (dest <= a < p) -> m8[a] = (old m8)[a]
    variant n

fn memmove
  file lib/string/memmove.c
  params dest src n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires range v8 dest n
  requires range v8 src n
  writes m8
  ensures[returns-dest] result = dest
  ensures[moved] forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n
  loop
    inv[position] 0 <= n <= n_0 /\ p = dest + n /\ q = src + n
    inv[moved] forall a. p <= a < dest + n_0 -> m8[a] = (old m8)[src + (a - dest)]
    inv[frame] forall a. not (p <= a < dest + n_0) -> m8[a] = (old m8)[a]
    variant n

fn __memmove
  file lib/string/__memmove.c
  params dest src n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires range v8 dest n
  requires range v8 src n
  writes m8
  ensures[returns-dest] result = dest
  ensures[moved] forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n
  loop
    inv[position] 0 <= n <= n_0 /\ p = dest + n /\ q = src + n
    inv[moved] forall a. p <= a < dest + n_0 -> m8[a] = (old m8)[src + (a - dest)]
    inv[frame] forall a. not (p <= a < dest + n_0) -> m8[a] = (old m8)[a]
    variant n

fn _memset
  file lib/string/memset.c
  params s c n
  uses mem.Str
  requires 0 < s
  requires range v8 s n
  writes m8
  ensures[returns-block] result = s
  ensures[filled] forall a. s <= a < s + n -> m8[a] = cast_s8 c
  ensures[frame] same_except m8 (old m8) s n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = s - s_0 /\ p = s_0
    inv[filled] forall a. s_0 <= a < s -> m8[a] = cast_s8 c
    inv[frame] forall a. not (s_0 <= a < s) -> m8[a] = (old m8)[a]
    variant n

fn memset
  file lib/string/memset.c
  params s c n
  uses mem.Str
  requires 0 < s
  requires range v8 s n
  writes m8
  ensures[returns-block] result = s
  ensures[filled] forall a. s <= a < s + n -> m8[a] = cast_s8 c
  ensures[frame] same_except m8 (old m8) s n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = s - s_0
    inv[filled] forall a. s_0 <= a < s -> m8[a] = cast_s8 c
    inv[frame] forall a. not (s_0 <= a < s) -> m8[a] = (old m8)[a]
    variant n

fn __memset
  file lib/string/__memset.c
  params s c n
  uses mem.Str
  requires 0 < s
  requires range v8 s n
  writes m8
  ensures[returns-block] result = s
  ensures[filled] forall a. s <= a < s + n -> m8[a] = cast_s8 c
  ensures[frame] same_except m8 (old m8) s n
  loop
    inv[position] 0 <= n <= n_0 /\ n_0 - n = p - s
    inv[filled] forall a. s <= a < p -> m8[a] = cast_s8 c
    inv[frame] forall a. not (s <= a < p) -> m8[a] = (old m8)[a]
    variant n

fn bzero
  file lib/string/bzero.c
  params block size
  uses mem.Str
  requires 0 < block
  requires range v8 block size
  writes m8
  ensures[zeroed] forall a. block <= a < block + size -> m8[a] = 0
  ensures[frame] same_except m8 (old m8) block size

fn bcopy
  file lib/string/bcopy.c
  params src dest n
  uses mem.Str
  requires 0 < dest /\ 0 < src
  requires range v8 dest n
  requires range v8 src n
  writes m8
  ensures[moved] forall a. dest <= a < dest + n -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest n

# ---------------------------------------------------------------- L02 strings
fn strlen
  file lib/string/strlen.c
  params s
  uses mem.Str
  requires vstr m8 v8 s
  requires slen m8 s <= 2147483646
  ensures[length] result = slen m8 s
  loop
    inv 0 <= i <= slen m8 s
    variant slen m8 s - i

fn strcpy
  file lib/string/strcpy.c
  params dest src
  uses mem.Str
  requires vstr m8 v8 src
  requires 0 < dest
  requires range v8 dest (slen m8 src + 1)
  requires disjoint dest (slen m8 src + 1) src (slen m8 src + 1)
  writes m8
  ensures[returns-dest] result = dest
  ensures[copied] forall a. dest <= a <= dest + slen (old m8) src -> m8[a] = (old m8)[src + (a - dest)]
  ensures[frame] same_except m8 (old m8) dest (slen (old m8) src + 1)
  ensures[length] slen m8 dest = slen (old m8) src
  post slen_is m8 dest (slen m8_in src_0)
  loop
    inv[position] 0 <= p - dest <= slen (old m8) src_0 /\ src - src_0 = p - dest
    inv[copied] forall a. dest <= a < p -> m8[a] = (old m8)[src_0 + (a - dest)]
    inv[frame] forall a. not (dest <= a < p) -> m8[a] = (old m8)[a]
    variant slen (old m8) src_0 - (p - dest)

fn strncpy
  file lib/string/strncpy.c
  params to_ from size
  uses mem.Str
  requires vstr m8 v8 from
  requires slen m8 from <= 2147483646 /\ size < 18446744073709551615
  requires 0 < to_
  requires range v8 to_ size
  requires disjoint to_ size from (slen m8 from + 1)
  writes m8
  ensures[returns-dest] result = to_
  ensures[copied] forall a. to_ <= a < to_ + size -> a - to_ < slen (old m8) from -> m8[a] = (old m8)[from + (a - to_)]
  ensures[padded] forall a. to_ <= a < to_ + size -> a - to_ >= slen (old m8) from -> m8[a] = 0
  ensures[frame] same_except m8 (old m8) to_ size
  loop
    inv[position] 0 <= p - to_ <= slen (old m8) from_0 /\ from - from_0 = p - to_ /\ p - to_ + size = size_0
    inv[copied] forall a. to_ <= a < p -> m8[a] = (old m8)[from_0 + (a - to_)]
    inv[frame] forall a. not (to_ <= a < p) -> m8[a] = (old m8)[a]
    variant slen (old m8) from_0 - (p - to_)
  loop
    inv[position] 0 <= p - to_ /\ p - to_ + size = size_0
    inv[copied] forall a. to_ <= a < p -> a - to_ < slen (old m8) from_0 -> m8[a] = (old m8)[from_0 + (a - to_)]
    inv[padded] forall a. to_ <= a < p -> a - to_ >= slen (old m8) from_0 -> m8[a] = 0
    inv[frame] forall a. not (to_ <= a < p) -> m8[a] = (old m8)[a]
    inv[source-done] size = 0 \/ p - to_ >= slen (old m8) from_0
    variant size

fn strcat
  file lib/string/strcat.c
  params to_ from
  uses mem.Str
  requires vstr m8 v8 to_
  requires vstr m8 v8 from
  requires range v8 to_ (slen m8 to_ + slen m8 from + 1)
  requires disjoint to_ (slen m8 to_ + slen m8 from + 1) from (slen m8 from + 1)
  writes m8
  ensures[returns-dest] result = to_
  ensures[appended] let e = to_ + slen (old m8) to_ in forall a. e <= a <= e + slen (old m8) from -> m8[a] = (old m8)[from + (a - e)]
  ensures[frame] same_except m8 (old m8) (to_ + slen (old m8) to_) (slen (old m8) from + 1)
  loop
    inv[position] let e = to_ + slen (old m8) to_ in 0 <= p - e <= slen (old m8) from_0 /\ from - from_0 = p - e
    inv[appended] let e = to_ + slen (old m8) to_ in forall a. e <= a < p -> m8[a] = (old m8)[from_0 + (a - e)]
    inv[frame] forall a. not (to_ + slen (old m8) to_ <= a < p) -> m8[a] = (old m8)[a]
    variant to_ + slen (old m8) to_ + slen (old m8) from_0 - p

fn strncat
  file lib/string/strncat.c
  params to_ from size
  uses mem.Str
  requires vstr m8 v8 to_
  requires vstr m8 v8 from
  requires range v8 to_ (slen m8 to_ + min (slen m8 from) size + 1)
  requires disjoint to_ (slen m8 to_ + slen m8 from + 1) from (slen m8 from + 1)
  writes m8
  ensures[returns-dest] result = to_
  ensures[appended] let e = to_ + slen (old m8) to_ in forall a. e <= a < e + min (slen (old m8) from) size -> m8[a] = (old m8)[from + (a - e)]
  ensures[terminated] m8[to_ + slen (old m8) to_ + min (slen (old m8) from) size] = 0
  ensures[frame] same_except m8 (old m8) (to_ + slen (old m8) to_) (min (slen (old m8) from) size + 1)
  loop
    inv[position] let e = to_ + slen (old m8) to_ in 0 <= p - e <= slen (old m8) from_0 /\ from - from_0 = p - e /\ p - e + size = size_0
    inv[appended] let e = to_ + slen (old m8) to_ in forall a. e <= a < p -> m8[a] = (old m8)[from_0 + (a - e)]
    inv[frame] forall a. not (to_ + slen (old m8) to_ <= a < p) -> m8[a] = (old m8)[a]
    variant to_ + slen (old m8) to_ + slen (old m8) from_0 - p

fn strlwr
  file lib/string/strlwr.c
  params string
  uses mem.Str ctype.Ctype
  requires vstr m8 v8 string
  writes m8
  ensures[returns-arg] result = string
  ensures[mapped] forall a. string <= a < string + slen (old m8) string -> m8[a] = lower (old m8)[a]
  ensures[frame] same_except m8 (old m8) string (slen (old m8) string)
  loop
    inv[position] string <= p <= string + slen (old m8) string
    inv[mapped] forall a. string <= a < p -> m8[a] = lower (old m8)[a]
    inv[frame] forall a. not (string <= a < p) -> m8[a] = (old m8)[a]
    variant string + slen (old m8) string - p

fn strupr
  file lib/string/strupr.c
  params string
  uses mem.Str ctype.Ctype
  requires vstr m8 v8 string
  writes m8
  ensures[returns-arg] result = string
  ensures[mapped] forall a. string <= a < string + slen (old m8) string -> m8[a] = upper (old m8)[a]
  ensures[frame] same_except m8 (old m8) string (slen (old m8) string)
  loop
    inv[position] string <= p <= string + slen (old m8) string
    inv[mapped] forall a. string <= a < p -> m8[a] = upper (old m8)[a]
    inv[frame] forall a. not (string <= a < p) -> m8[a] = (old m8)[a]
    variant string + slen (old m8) string - p

# ---------------------------------------------------------------- L03 compare
fn memcmp
  file lib/string/memcmp.c
  params s1 s2 size
  uses mem.Str
  requires 0 < s1 /\ 0 < s2
  requires range v8 s1 size
  requires range v8 s2 size
  ensures[equal] result = 0 <-> (forall a. s1 <= a < s1 + size -> m8[a] = m8[s2 + (a - s1)])
  ensures[sign] forall d. s1 <= d < s1 + size -> (forall a. s1 <= a < d -> m8[a] = m8[s2 + (a - s1)]) -> m8[d] <> m8[s2 + (d - s1)] -> (result < 0 <-> u8 m8[d] < u8 m8[s2 + (d - s1)])
  loop
    inv[position] 1 <= size <= size_0 /\ a - s1 = size_0 - size /\ b - s2 = a - s1
    inv[prefix] forall x. s1 <= x < a -> m8[x] = m8[s2 + (x - s1)]
    variant size

fn bcmp
  file lib/string/bcmp.c
  params s1 s2 size
  uses mem.Str
  requires 0 < s1 /\ 0 < s2
  requires range v8 s1 size
  requires range v8 s2 size
  ensures[equal] result = 0 <-> (forall a. s1 <= a < s1 + size -> m8[a] = m8[s2 + (a - s1)])

fn strcmp
  file lib/string/strcmp.c
  params a b
  uses mem.Str
  requires vstr m8 v8 a
  requires vstr m8 v8 b
  ensures[equal] result = 0 <-> (slen m8 a = slen m8 b /\ forall x. a <= x < a + slen m8 a -> m8[x] = m8[b + (x - a)])
  ensures[sign] forall d. a <= d <= a + min (slen m8 a) (slen m8 b) -> (forall x. a <= x < d -> m8[x] = m8[b + (x - a)]) -> m8[d] <> m8[b + (d - a)] -> (result < 0 <-> u8 m8[d] < u8 m8[b + (d - a)])
  loop
    inv[position] a - a_0 = b - b_0 /\ a_0 <= a <= a_0 + slen m8 a_0 /\ b <= b_0 + slen m8 b_0
    inv[prefix] forall x. a_0 <= x < a -> m8[x] = m8[b_0 + (x - a_0)]
    variant a_0 + slen m8 a_0 - a

fn strncmp
  file lib/string/strncmp.c
  params a b size
  uses mem.Str
  requires vstr m8 v8 a
  requires vstr m8 v8 b
  ensures[equal] result = 0 <-> (forall x. a <= x < a + min size (min (slen m8 a) (slen m8 b) + 1) -> m8[x] = m8[b + (x - a)])
  ensures[sign] forall d. a <= d <= a + min (slen m8 a) (slen m8 b) -> d < a + size -> (forall x. a <= x < d -> m8[x] = m8[b + (x - a)]) -> m8[d] <> m8[b + (d - a)] -> (result < 0 <-> u8 m8[d] < u8 m8[b + (d - a)])
  loop
    inv[position] 1 <= size <= size_0 /\ a - a_0 = size_0 - size /\ a - a_0 = b - b_0 /\ a <= a_0 + slen m8 a_0 /\ b <= b_0 + slen m8 b_0
    inv[prefix] forall x. a_0 <= x < a -> m8[x] = m8[b_0 + (x - a_0)]
    variant size

# ---------------------------------------------------------------- L04 search
fn memchr
  file lib/string/memchr.c
  params block c size
  uses mem.Str
  requires 0 < block
  requires range v8 block size
  ensures[found] result <> 0 -> block <= result < block + size /\ m8[result] = cast_s8 c
  ensures[first] result <> 0 -> forall a. block <= a < result -> m8[a] <> cast_s8 c
  ensures[absent] result = 0 -> forall a. block <= a < block + size -> m8[a] <> cast_s8 c
  loop
    inv[position] 0 <= size <= size_0 /\ p - block = size_0 - size
    inv[none-yet] forall a. block <= a < p -> m8[a] <> cast_s8 c
    variant size

fn strchr
  file lib/string/strchr.c
  params s c
  uses mem.Str
  requires vstr m8 v8 s
  ensures[found] result <> 0 -> s <= result <= s + slen m8 s /\ m8[result] = cast_s8 c
  ensures[first] result <> 0 -> forall a. s <= a < result -> m8[a] <> cast_s8 c
  ensures[absent] result = 0 -> forall a. s <= a <= s + slen m8 s -> m8[a] <> cast_s8 c
  loop
    inv[position] s <= p <= s + slen m8 s
    inv[none-yet] forall a. s <= a < p -> m8[a] <> cast_s8 c
    variant s + slen m8 s - p

fn strrchr
  file lib/string/strrchr.c
  params s c
  uses mem.Str
  requires vstr m8 v8 s
  requires slen m8 s <= 2147483646
  ensures[found] result <> 0 -> s <= result <= s + slen m8 s /\ m8[result] = cast_s8 c
  ensures[last] result <> 0 -> forall a. result < a <= s + slen m8 s -> m8[a] <> cast_s8 c
  ensures[absent] result = 0 -> forall a. s <= a <= s + slen m8 s -> m8[a] <> cast_s8 c
  loop
    inv[position] 0 <= n <= slen m8 s /\ p = s + n - 1
    inv[none-yet] forall a. p < a <= s + slen m8 s -> m8[a] <> cast_s8 c
    variant n

fn index
  file lib/string/index.c
  params s c
  uses mem.Str
  requires vstr m8 v8 s
  ensures[found] result <> 0 -> s <= result <= s + slen m8 s /\ m8[result] = cast_s8 c
  ensures[first] result <> 0 -> forall a. s <= a < result -> m8[a] <> cast_s8 c
  ensures[absent] result = 0 -> forall a. s <= a <= s + slen m8 s -> m8[a] <> cast_s8 c

fn rindex
  file lib/string/rindex.c
  params s c
  uses mem.Str
  requires vstr m8 v8 s
  requires slen m8 s <= 2147483646
  ensures[found] result <> 0 -> s <= result <= s + slen m8 s /\ m8[result] = cast_s8 c
  ensures[last] result <> 0 -> forall a. result < a <= s + slen m8 s -> m8[a] <> cast_s8 c
  ensures[absent] result = 0 -> forall a. s <= a <= s + slen m8 s -> m8[a] <> cast_s8 c

fn _memmem
  file lib/string/memmem.c
  params haystack haystack_len needle needle_len
  uses mem.Str
  requires 0 < haystack /\ 0 < needle /\ 0 <= haystack_len /\ 0 <= needle_len
  requires range v8 haystack haystack_len
  requires range v8 needle needle_len
  ensures[found] result <> 0 -> haystack <= result <= haystack + haystack_len - needle_len /\ matchat m8 result needle needle_len
  ensures[first] result <> 0 -> forall h. haystack <= h < result -> not matchat m8 h needle needle_len
  ensures[absent] result = 0 -> forall h. haystack <= h <= haystack + haystack_len - needle_len -> not matchat m8 h needle needle_len
  loop
    inv[position] haystack_0 <= haystack /\ (haystack <= haystack_0 + haystack_len - needle_len + 1 \/ haystack = haystack_0)
    inv[none-yet] forall h. haystack_0 <= h < haystack -> not matchat m8 h needle needle_len
    variant haystack_0 + haystack_len - needle_len + 1 - haystack
  loop
    inv[position] needle <= subneedle <= needle + needle_len /\ subhaystack = haystack + (subneedle - needle)
    inv[prefix] forall a. needle <= a < subneedle -> m8[a] = m8[haystack + (a - needle)]
    variant needle + needle_len - subneedle

fn memmem
  file lib/string/memmem.c
  params haystack haystack_len needle needle_len
  uses mem.Str
  requires 0 < haystack /\ 0 < needle /\ 0 <= haystack_len /\ 0 <= needle_len
  requires range v8 haystack haystack_len
  requires range v8 needle needle_len
  ensures[found] result <> 0 -> haystack <= result <= haystack + haystack_len - needle_len /\ matchat m8 result needle needle_len
  ensures[first] result <> 0 -> forall h. haystack <= h < result -> not matchat m8 h needle needle_len
  ensures[absent] result = 0 -> forall h. haystack <= h <= haystack + haystack_len - needle_len -> not matchat m8 h needle needle_len

fn strstr
  file lib/string/strstr.c
  params haystack needle
  uses mem.Str
  requires vstr m8 v8 haystack
  requires vstr m8 v8 needle
  requires slen m8 haystack <= 2147483646 /\ slen m8 needle <= 2147483646
  ensures[found] result <> 0 -> haystack <= result <= haystack + slen m8 haystack - slen m8 needle /\ matchat m8 result needle (slen m8 needle)
  ensures[first] result <> 0 -> forall h. haystack <= h < result -> not matchat m8 h needle (slen m8 needle)
  ensures[absent] result = 0 -> forall h. haystack <= h <= haystack + slen m8 haystack - slen m8 needle -> not matchat m8 h needle (slen m8 needle)

fn strpbrk
  file lib/string/strpbrk.c
  params string stopset
  uses mem.Str
  requires vstr m8 v8 string
  requires vstr m8 v8 stopset
  ensures[found] result <> 0 -> string <= result < string + slen m8 string /\ inset m8 stopset m8[result]
  ensures[first] result <> 0 -> forall a. string <= a < result -> not inset m8 stopset m8[a]
  ensures[absent] result = 0 -> forall a. string <= a < string + slen m8 string -> not inset m8 stopset m8[a]
  loop
    inv[position] string <= p <= string + slen m8 string
    inv[none-yet] forall a. string <= a < p -> not inset m8 stopset m8[a]
    variant string + slen m8 string - p

fn strspn
  file lib/string/strspn.c
  params string skipset
  uses mem.Str
  requires vstr m8 v8 string
  requires vstr m8 v8 skipset
  ensures[inside] 0 <= result <= slen m8 string /\ forall a. string <= a < string + result -> inset m8 skipset m8[a]
  ensures[longest] result < slen m8 string -> not inset m8 skipset m8[string + result]
  loop
    inv[position] string <= p <= string + slen m8 string
    inv[prefix] forall a. string <= a < p -> inset m8 skipset m8[a]
    variant string + slen m8 string - p

fn strcspn
  file lib/string/strcspn.c
  params string stopset
  uses mem.Str
  requires vstr m8 v8 string
  requires vstr m8 v8 stopset
  ensures[outside] 0 <= result <= slen m8 string /\ forall a. string <= a < string + result -> not inset m8 stopset m8[a]
  ensures[longest] result < slen m8 string -> inset m8 stopset m8[string + result]
  loop
    inv[position] string <= p <= string + slen m8 string
    inv[prefix] forall a. string <= a < p -> not inset m8 stopset m8[a]
    variant string + slen m8 string - p
