(* Arrays of equally sized elements and their order. *)
module Sort
  use mem.Mem
  use mem.Str
  use export map.Occ
  use export map.MapPermut

  (* the contents of the s bytes at p *)
  type elt
  function el (m: map int int) (p s: int) : elt
  axiom el_eq: forall m m' p q s [el m p s, el m' q s]. el m p s = el m' q s <-> forall a. p <= a < p + s -> m[a] = m'[q + (a - p)]
  (* the total preorder that comparison function f decides *)
  function key (f: int) (e: elt) : int

  (* address of element k *)
  val ghost function ix (b k s: int) : int ensures { result = b + k * s }
  let lemma ix_0 (b s: int) : unit ensures { ix b 0 s = b } = ()
  let lemma ix_sep (b k j s: int) : unit requires { 0 <= s /\ k < j } ensures { ix b k s + s <= ix b j s }
  = assert { j * s - k * s = (j - k) * s }; assert { (j - k) * s >= s }
  let lemma ix_add (b k j s: int) : unit ensures { ix b (k + j) s = ix b k s + j * s } = ()
  let ghost ix_bound (b k j s: int) : unit requires { 0 <= s /\ k <= j } ensures { ix b k s <= ix b j s /\ 0 <= (j - k) * s = ix b j s - ix b k s }
  = assert { j * s - k * s = (j - k) * s }

  function arr (m: map int int) (b s: int) : map int elt
  axiom arr_def: forall m b s k [(arr m b s)[k]]. (arr m b s)[k] = el m (ix b k s) s

  predicate below (f: int) (a: map int elt) (lo hi k: int) = forall i. lo <= i < hi -> key f a[i] < k
  predicate above (f: int) (a: map int elt) (lo hi k: int) = forall i. lo <= i < hi -> key f a[i] >= k
  predicate sorted (f: int) (a: map int elt) (lo hi: int) = forall i j. lo <= i <= j < hi -> key f a[i] <= key f a[j]

  predicate same_arr (a a': map int elt) (lo hi: int) = forall i. lo <= i < hi -> a[i] = a'[i]
  let lemma arr_same (m m': map int int) (b s lo hi: int) : unit
    requires { 0 <= s }
    requires { forall a. ix b lo s <= a < ix b hi s -> m[a] = m'[a] }
    ensures { same_arr (arr m b s) (arr m' b s) lo hi }
  = let lemma one (i: int) : unit requires { lo <= i < hi } ensures { (arr m b s)[i] = (arr m' b s)[i] }
    = ix_bound b lo i s; ix_sep b i (i+1) s; ix_bound b (i+1) hi s; assert { forall a. ix b i s <= a < ix b i s + s -> m[a] = m'[ix b i s + (a - ix b i s)] };
      assert { el m (ix b i s) s = el m' (ix b i s) s }
    in ()

  let lemma same_permut (a a': map int elt) (lo hi: int) : unit
    requires { same_arr a a' lo hi } ensures { permut a a' lo hi } = ()
  let lemma permut_glue (a a': map int elt) (lo mid hi: int) : unit
    requires { lo <= mid <= hi /\ permut a a' lo mid /\ permut a a' mid hi } ensures { permut a a' lo hi }
  = assert { forall v. occ v a lo hi = occ v a lo mid + occ v a mid hi /\ occ v a' lo hi = occ v a' lo mid + occ v a' mid hi }
  let lemma permut_chain (a b c: map int elt) (lo hi: int) : unit
    requires { permut a b lo hi /\ permut b c lo hi } ensures { permut a c lo hi } = ()
  let lemma permut_below (f: int) (a a': map int elt) (lo hi k: int) : unit
    requires { permut a a' lo hi /\ below f a lo hi k } ensures { below f a' lo hi k }
  = assert { forall i. lo <= i < hi -> exists j. lo <= j < hi /\ a[j] = a'[i] }
  let lemma permut_above (f: int) (a a': map int elt) (lo hi k: int) : unit
    requires { permut a a' lo hi /\ above f a lo hi k } ensures { above f a' lo hi k }
  = assert { forall i. lo <= i < hi -> exists j. lo <= j < hi /\ a[j] = a'[i] }

  (* exchanging two elements *)
  predicate exchanged (m m': map int int) (p q s: int) =
    (forall a. p <= a < p + s -> m'[a] = m[q + (a - p)]) /\ (forall a. q <= a < q + s -> m'[a] = m[p + (a - q)])
    /\ (forall a. not (p <= a < p + s) -> not (q <= a < q + s) -> m'[a] = m[a])
  let ghost exchange (m m': map int int) (b s lo hi i j: int) : unit
    requires { 0 <= s /\ lo <= i < hi /\ lo <= j < hi }
    requires { exchanged m m' (ix b i s) (ix b j s) s }
    ensures { (arr m' b s)[i] = (arr m b s)[j] /\ (arr m' b s)[j] = (arr m b s)[i] }
    ensures { forall k. k <> i -> k <> j -> (arr m' b s)[k] = (arr m b s)[k] }
    ensures { permut (arr m b s) (arr m' b s) lo hi }
    ensures { forall a. not (ix b lo s <= a < ix b hi s) -> m'[a] = m[a] }
  = ix_bound b lo i s; ix_bound b lo j s; ix_sep b i hi s; ix_sep b j hi s;
    let lemma other (k: int) : unit requires { k <> i /\ k <> j } ensures { (arr m' b s)[k] = (arr m b s)[k] }
    = (if k < i then ix_sep b k i s else ix_sep b i k s); (if k < j then ix_sep b k j s else ix_sep b j k s);
      assert { forall a. ix b k s <= a < ix b k s + s -> m'[a] = m[ix b k s + (a - ix b k s)] } in
    assert { el m' (ix b i s) s = el m (ix b j s) s };
    assert { el m' (ix b j s) s = el m (ix b i s) s };
    let x = (arr m b s)[i] in let y = (arr m b s)[j] in
    if i <> j then begin
      assert { same_arr (arr m b s) (set (set (arr m b s) i x) j y) lo hi };
      assert { same_arr (arr m' b s) (set (set (arr m b s) i y) j x) lo hi };
      assert { forall z. occ z (set (set (arr m b s) i x) j y) lo hi = occ z (set (set (arr m b s) i y) j x) lo hi }
    end else assert { same_arr (arr m b s) (arr m' b s) lo hi }
end
