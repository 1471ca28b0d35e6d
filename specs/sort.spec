# ---------------------------------------------------------------- L08 sorting
# the caller's comparison: it reads the two elements and answers by a total preorder on their contents
extern compare_elements
  opt withfn
  params f a b
  ghost s: int
  ret int
  uses mem.Mem mem.Str sort.Sort
  requires[readable] range v8 a s /\ range v8 b s
  reads m8 v8
  writes -
  ensures result < 0 <-> key f (el m8 a s) < key f (el m8 b s)
  ensures result = 0 <-> key f (el m8 a s) = key f (el m8 b s)

fn qswap
  file lib/stdlib/qsort.c
  params a b size
  uses mem.Str sort.Sort
  requires 0 < a /\ 0 < b /\ 0 < size
  requires[separate] a = b \/ disjoint a size b size
  requires[valid] range v8 a size /\ range v8 b size
  writes m8
  ensures[swapped] exchanged (old m8) m8 a b size
  loop
    inv[position] 0 < size <= size_0 /\ pa = a_0 + (size_0 - size) /\ pb = b_0 + (size_0 - size)
    inv[done] forall x. a_0 <= x < pa -> m8[x] = m8_in[b_0 + (x - a_0)]
    inv[done] forall x. b_0 <= x < pb -> m8[x] = m8_in[a_0 + (x - b_0)]
    inv[frame] forall x. not (a_0 <= x < pa) -> not (b_0 <= x < pb) -> m8[x] = m8_in[x]
    variant size

fn qpart
  file lib/stdlib/qsort.c
  params base count size compare
  ghost b0: int
  ghost lo: int
  callback compare compare_elements
  ghostarg[compare_elements] size
  uses mem.Str sort.Sort
  requires[place] 0 < b0 /\ 0 <= lo /\ 0 < size /\ base = ix b0 lo size
  requires[room] ix b0 (lo + count + 1) size <= 9223372036854775807
  requires[valid] range v8 base ((count + 1) * size)
  writes m8
  ensures[position] 0 <= result <= count
  ensures[smaller-first] below compare (arr m8 b0 size) lo (lo + result) (key compare (arr m8 b0 size)[lo + result])
  ensures[not-smaller-last] above compare (arr m8 b0 size) (lo + result) (lo + count + 1) (key compare (arr m8 b0 size)[lo + result])
  ensures[permutation] permut (arr (old m8) b0 size) (arr m8 b0 size) lo (lo + count + 1)
  ensures[frame] forall a. not (ix b0 lo size <= a < ix b0 (lo + count + 1) size) -> m8[a] = (old m8)[a]
  pre ix_bound b0 0 lo size; ix_add b0 lo count size; ix_add b0 lo (count + 1) size; ix_bound b0 lo (lo + count + 1) size; ix_sep b0 (lo + count) (lo + count + 1) size
  hook[before:compare_elements#0] ix_add b0 lo j size; ix_sep b0 (lo + j) (lo + count) size; ix_bound b0 lo (lo + j) size
  hook[before:qswap#0] ix_add b0 lo i size; ix_bound b0 lo (lo + i) size; ix_bound b0 i j size; ix_sep b0 (lo + i) (lo + count) size; ghost (if i < j then ix_sep b0 (lo + i) (lo + j) size); before <- m8
  hook[after:qswap#0] exchange before m8 b0 size lo (lo + count) (lo + i) (lo + j); assert { key compare (arr m8 b0 size)[lo + i] < key compare (arr m8 b0 size)[lo + count] }; assert { forall k. lo <= k < lo + i -> (arr m8 b0 size)[k] = (arr before b0 size)[k] }; assert { forall k. lo <= k < lo + i -> key compare (arr m8 b0 size)[k] < key compare (arr m8 b0 size)[lo + count] }; assert { below compare (arr m8 b0 size) lo (lo + (i + 1)) (key compare (arr m8 b0 size)[lo + count]) }; exchange before m8 b0 size lo (lo + count + 1) (lo + i) (lo + j); permut_chain (arr m8_in b0 size) (arr before b0 size) (arr m8 b0 size) lo (lo + count + 1)
  hook[after:compare_elements#0] assert { key compare (el m8 $2 size) = key compare (arr m8 b0 size)[lo + j] /\ key compare (el m8 $3 size) = key compare (arr m8 b0 size)[lo + count] }
  hook[after:compare_elements#1] assert { key compare (el m8 $3 size) = key compare (arr m8 b0 size)[lo + i] /\ key compare (el m8 $2 size) = key compare (arr m8 b0 size)[lo + count] }
  hook[before:compare_elements#1] ix_add b0 lo i size; ix_bound b0 lo (lo + i) size; ix_bound b0 (lo + i) (lo + count) size; ghost (if i < count then ix_sep b0 (lo + i) (lo + count) size)
  hook[before:qswap#1] before <- m8
  hook[after:qswap#1] exchange before m8 b0 size lo (lo + count + 1) (lo + i) (lo + count); permut_chain (arr m8_in b0 size) (arr before b0 size) (arr m8 b0 size) lo (lo + count + 1)
  pre let ghost ref before = m8 in
  loop
    inv[position] 0 <= i <= j <= count
    inv[smaller-first] below compare (arr m8 b0 size) lo (lo + i) (key compare (arr m8 b0 size)[lo + count])
    inv[not-smaller-next] above compare (arr m8 b0 size) (lo + i) (lo + j) (key compare (arr m8 b0 size)[lo + count])
    inv[permutation] permut (arr m8_in b0 size) (arr m8 b0 size) lo (lo + count + 1)
    inv[pivot] (arr m8 b0 size)[lo + count] = (arr m8_in b0 size)[lo + count]
    inv[frame] forall a. not (ix b0 lo size <= a < ix b0 (lo + count) size) -> m8[a] = m8_in[a]
    variant count - j

fn qsort
  file lib/stdlib/qsort.c
  params base count size compare
  ghost b0: int
  ghost lo: int
  callback compare compare_elements
  uses mem.Str sort.Sort
  requires[place] 0 < b0 /\ 0 <= lo /\ 0 < size /\ base = ix b0 lo size
  requires[room] ix b0 (lo + count) size <= 9223372036854775807
  requires[valid] range v8 base (count * size)
  writes m8
  variant count
  ensures[ordered] sorted compare (arr m8 b0 size) lo (lo + count)
  ensures[permutation] permut (arr (old m8) b0 size) (arr m8 b0 size) lo (lo + count)
  ensures[frame] forall a. not (ix b0 lo size <= a < ix b0 (lo + count) size) -> m8[a] = (old m8)[a]
  pre ix_bound b0 0 lo size; ix_add b0 lo count size
  pre let ghost ref m1 = m8 in
  ghostarg[qpart] b0
  ghostarg[qpart] lo
  ghostarg[qsort#0] b0
  ghostarg[qsort#0] lo
  ghostarg[qsort#1] b0
  ghostarg[qsort#1] (lo + p + 1)
  hook[before:qsort#0] m1 <- m8; ix_add b0 lo p size; ix_sep b0 (lo + p) (lo + p + 1) size; ix_bound b0 lo (lo + p) size; ix_bound b0 (lo + p + 1) (lo + count) size; ix_add b0 lo (p + 1) size; ix_bound b0 (lo + p) (lo + count) size
  hook[before:qsort#1] arr_same m1 m8 b0 size (lo + p) (lo + count); ix_add b0 (lo + p + 1) (count - p - 1) size; assert { permut (arr m1 b0 size) (arr m8 b0 size) lo (lo + count) }; assert { permut (arr m8_in b0 size) (arr m8 b0 size) lo (lo + count) }; assert { below compare (arr m8 b0 size) lo (lo + p) (key compare (arr m8 b0 size)[lo + p]) }; m2 <- m8
  pre let ghost ref m2 = m8 in
  hook[after:qsort#1] arr_same m2 m8 b0 size lo (lo + p + 1); permut_glue (arr m2 b0 size) (arr m8 b0 size) lo (lo + p + 1) (lo + count); permut_chain (arr m8_in b0 size) (arr m2 b0 size) (arr m8 b0 size) lo (lo + count); assert { forall k. lo <= k <= lo + p -> (arr m8 b0 size)[k] = (arr m2 b0 size)[k] }; assert { below compare (arr m8 b0 size) lo (lo + p) (key compare (arr m8 b0 size)[lo + p]) }; permut_above compare (arr m2 b0 size) (arr m8 b0 size) (lo + p + 1) (lo + count) (key compare (arr m8 b0 size)[lo + p]); assert { sorted compare (arr m8 b0 size) lo (lo + p) }; assert { sorted compare (arr m8 b0 size) (lo + p + 1) (lo + count) }; assert { sorted compare (arr m8 b0 size) lo (lo + count) }
