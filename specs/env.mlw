(* The environment: an array of NAME=VALUE strings ended by a null pointer. *)
module Env
  use mem.Mem
  use mem.Str

  (* entry k of the array at e *)
  function ent (m: map int int) (e k: int) : int
  axiom ent_def: forall m e k [ent m e k]. ent m e k = m[e + 8 * k]
  (* the pointers of n entries and the terminator are there *)
  function pos (e k: int) : int
  axiom pos_def: forall e k [pos e k]. pos e k = e + 8 * k
  predicate slots (v6: map int bool) (e n: int)
  axiom slots_def: forall v6 e n [slots v6 e n]. slots v6 e n <-> forall k [pos e k]. 0 <= k <= n -> v6[pos e k]
  let ghost slot (v6: map int bool) (e n k: int) : unit requires { slots v6 e n /\ 0 <= k <= n } ensures { v6[e + 8 * k] } = assert { v6[pos e k] }
  let ghost slots_less (v6: map int bool) (e n k: int) : unit requires { slots v6 e n /\ k <= n } ensures { slots v6 e k }
  = ()
  predicate env_ok (m: map int int) (w: map int int) (v: map int bool) (v6: map int bool) (e n: int) =
    0 < e /\ 0 <= n /\ slots v6 e n
    /\ (forall k [ent w e k]. 0 <= k < n -> ent w e k <> 0 /\ vstr m v (ent w e k)) /\ ent w e n = 0

  (* the string at p is s=..., and s itself has no = *)
  predicate named (m: map int int) (p s: int)
  axiom named_def: forall m p s [named m p s]. named m p s <-> (forall a. s <= a < s + slen m s -> m[p + (a - s)] = m[a]) /\ m[p + slen m s] = 61
  predicate plain (m: map int int) (s: int) = forall a. s <= a < s + slen m s -> m[a] <> 61
  predicate same_name (m: map int int) (s t: int) = slen m s = slen m t /\ forall a. s <= a < s + slen m s -> m[a] = m[t + (a - s)]
  let lemma named_once (m: map int int) (p s t: int) : unit
    requires { str m s /\ str m t /\ plain m s /\ plain m t /\ named m p s /\ named m p t } ensures { same_name m s t }
  = if slen m s < slen m t then assert { m[t + slen m s] <> 61 /\ m[p + slen m s] = m[t + slen m s] };
    if slen m t < slen m s then assert { m[s + slen m t] <> 61 /\ m[p + slen m t] = m[s + slen m t] };
    assert { forall a. s <= a < s + slen m s -> m[t + (a - s)] = m[p + ((t + (a - s)) - t)] }

  let ghost named_test (m: map int int) (v: map int bool) (p s r: int) : unit
    requires { vstr m v p /\ vstr m v s /\ (r = 0 <-> forall x. s <= x < s + min (slen m s) (min (slen m s) (slen m p) + 1) -> m[x] = m[p + (x - s)]) }
    ensures { r = 0 -> slen m s <= slen m p } ensures { r = 0 /\ m[p + slen m s] = 61 <-> named m p s }
  = assert { slen m p < slen m s -> m[s + slen m p] <> 0 /\ m[p + ((s + slen m p) - s)] = 0 };
    assert { r = 0 -> slen m p < slen m s -> m[s + slen m p] = m[p + ((s + slen m p) - s)] };
    assert { named m p s -> slen m p < slen m s -> m[p + ((s + slen m p) - s)] = m[s + slen m p] }

  (* strings that were there before keep their names *)
  let ghost str_kept (m m': map int int) (v: map int bool) (p: int) : unit
    requires { vstr m v p /\ forall a. v[a] -> m'[a] = m[a] } ensures { vstr m' v p /\ slen m' p = slen m p }
  = slen_is m' p (slen m p)
  let ghost named_kept (m m': map int int) (v: map int bool) (p s: int) : unit
    requires { vstr m v p /\ vstr m v s /\ forall a. v[a] -> m'[a] = m[a] } ensures { named m' p s <-> named m p s }
  = str_kept m m' v p; str_kept m m' v s;
    let lemma one (n o: map int int) : unit requires { vstr n v p /\ vstr n v s /\ named n p s /\ (forall a. v[a] -> o[a] = n[a]) /\ slen o s = slen n s }
      ensures { named o p s }
    = assert { slen n s < slen n p || slen n s = slen n p || slen n p < slen n s };
      assert { slen n p < slen n s -> n[s + slen n p] <> 0 /\ n[p + ((s + slen n p) - s)] = n[s + slen n p] };
      assert { slen n s < slen n p };
      assert { forall a. s <= a < s + slen n s -> o[p + (a - s)] = n[p + (a - s)] /\ o[a] = n[a] } in
    if pure { named m p s } then one m m';
    if pure { named m' p s } then one m' m

  (* the first entry with that name; n if there is none *)
  function first (m w: map int int) (e n s: int) : int
  axiom first_def: forall m w e n s [first m w e n s]. 0 <= n -> 0 <= first m w e n s <= n /\ (first m w e n s < n -> named m (ent w e (first m w e n s)) s)
    /\ (forall j [ent w e j]. 0 <= j < first m w e n s -> not named m (ent w e j) s)
  predicate none_before (m w: map int int) (e k s: int) = forall j [ent w e j]. 0 <= j < k -> not named m (ent w e j) s
  (* entries k..i have been overwritten by their successors *)
  predicate moved (w w': map int int) (e k i: int) = (forall j [ent w' e j]. k <= j <= i -> ent w' e j = ent w e (j + 1))
    /\ (forall j [ent w' e j]. j < k \/ i < j -> ent w' e j = ent w e j)
  let ghost none_more (m w: map int int) (e k s: int) : unit
    requires { none_before m w e k s /\ not named m (ent w e k) s } ensures { none_before m w e (k + 1) s } = ()
  let ghost first_is (m w: map int int) (e n s k: int) : unit
    requires { 0 <= k <= n /\ (k < n -> named m (ent w e k) s) /\ none_before m w e k s }
    ensures { first m w e n s = k }
  = let f = first m w e n s in assert { f < k -> f < n /\ named m (ent w e f) s }; assert { k < f -> not named m (ent w e k) s }
  (* where the value of s starts; 0 if s is not set *)
  function value (m w: map int int) (e n s: int) : int = if first m w e n s < n then ent w e (first m w e n s) + slen m s + 1 else 0

  predicate others_kept (m m' w w': map int int) (v: map int bool) (e e' n n' s: int) =
    forall t. vstr m v t -> plain m t -> not same_name m s t -> value m' w' e' n' t = value m w e n t

  (* entry k, named s, is replaced by one of the same name *)
  let ghost replaced (m m' w w': map int int) (v v6: map int bool) (e n s k p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a]) /\ vstr m v s /\ plain m s }
    requires { 0 <= k < n /\ named m (ent w e k) s /\ named m' p s }
    requires { forall j [ent w' e j]. ent w' e j = if j = k then p else ent w e j }
    ensures { others_kept m m' w w' v e e n n s }
  = let lemma one (t: int) : unit requires { vstr m v t /\ plain m t /\ not same_name m s t } ensures { value m' w' e n t = value m w e n t }
    = let f = first m w e n t in
      str_kept m m' v s; str_kept m m' v t;
      assert { plain m' s /\ plain m' t };
      assert { same_name m' s t -> same_name m s t };
      assert { not named m (ent w e k) t }; assert { not named m' p t };
      assert { f <> k };
      let lemma keeps (j: int) : unit requires { 0 <= j < n /\ j <> k } ensures { named m' (ent w' e j) t <-> named m (ent w e j) t }
      = named_kept m m' v (ent w e j) t in
      assert { forall j [ent w' e j]. 0 <= j < f -> not named m' (ent w' e j) t };
      first_is m' w' e n t f in ()
  (* a new entry, named s, at the end of a copy *)
  let ghost appended (m m' w w': map int int) (v v6: map int bool) (e e' n s p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a]) /\ vstr m v s /\ plain m s }
    requires { named m' p s }
    requires { forall j [ent w' e' j]. 0 <= j <= n -> ent w' e' j = if j = n then p else ent w e j }
    ensures { others_kept m m' w w' v e e' n (n + 1) s }
  = let lemma one (t: int) : unit requires { vstr m v t /\ plain m t /\ not same_name m s t } ensures { value m' w' e' (n + 1) t = value m w e n t }
    = let f = first m w e n t in
      str_kept m m' v s; str_kept m m' v t;
      assert { plain m' s /\ plain m' t };
      assert { same_name m' s t -> same_name m s t };
      assert { not named m' p t };
      let lemma keeps (j: int) : unit requires { 0 <= j < n } ensures { named m' (ent w' e' j) t <-> named m (ent w e j) t }
      = named_kept m m' v (ent w e j) t in
      assert { forall j [ent w' e' j]. 0 <= j < f -> not named m' (ent w' e' j) t };
      first_is m' w' e' (n + 1) t (if f = n then n + 1 else f) in ()
  (* entry k, named s, is taken out *)
  let ghost removed (m w w': map int int) (v v6: map int bool) (e n s k: int) : unit
    requires { env_ok m w v v6 e n /\ vstr m v s /\ plain m s }
    requires { 0 <= k < n /\ named m (ent w e k) s }
    requires { forall j [ent w' e j]. 0 <= j < k -> ent w' e j = ent w e j }
    requires { forall j [ent w' e j]. k <= j < n -> ent w' e j = ent w e (j + 1) }
    ensures { others_kept m m w w' v e e n (n - 1) s }
    ensures { env_ok m w' v v6 e (n - 1) }
  = let lemma one (t: int) : unit requires { vstr m v t /\ plain m t /\ not same_name m s t } ensures { value m w' e (n - 1) t = value m w e n t }
    = let f = first m w e n t in
      assert { not named m (ent w e k) t };
      assert { f <> k };
      assert { forall j [ent w' e j]. k <= j < n -> j + 1 < f -> not named m (ent w' e j) t };
      if f < k then first_is m w' e (n - 1) t f else begin assert { f < n -> ent w' e (f - 1) = ent w e f }; first_is m w' e (n - 1) t (f - 1) end in ();
    slots_less v6 e n (n - 1); assert { ent w' e (n - 1) = ent w e n };
    assert { forall j [ent w' e j]. k <= j < n - 1 -> ent w' e j = ent w e (j + 1) /\ 0 <= j + 1 < n }

  let ghost move_one (w w' w'': map int int) (e k i: int) : unit
    requires { (k <= i /\ moved w w' e k i) \/ (i = k - 1 /\ w' = w) }
    requires { w'' = set w' (e + 8 * (i + 1)) w'[e + 8 * (i + 2)] }
    ensures { moved w w'' e k (i + 1) }
  = let lemma is_ (j: int) : unit ensures { ent w'' e j = if j = i + 1 then ent w' e (j + 1) else ent w' e j } = assert { ent w' e (j + 1) = w'[e + 8 * (j + 1)] } in
    assert { forall j [ent w'' e j]. i + 1 < j -> ent w'' e j = ent w' e j };
    assert { ent w' e (i + 2) = ent w e (i + 2) }

  (* blocks without a common byte *)
  let ghost apart (v: map int bool) (p n q k: int) : unit
    requires { 0 < n /\ 0 < k /\ range v q k /\ forall a. p <= a < p + n -> not v[a] } ensures { disjoint p n q k }
  = assert { p <= q < p + n -> v[q] /\ not v[q] }; assert { q <= p < q + k -> v[p] /\ not v[p] }
  (* a word of a new array is not one of the old one *)
  let ghost apart1 (v6: map int bool) (e' n e i: int) : unit
    requires { slots v6 e n /\ 0 <= i <= n /\ forall a. e' <= a <= e' + 8 * (n + 1) -> not v6[a] } ensures { not (e' <= e + 8 * i <= e' + 8 * (n + 1)) }
  = slot v6 e n i
  let ghost slots_new (v6: map int bool) (e n: int) : unit
    requires { mod e 8 = 0 /\ forall a. e <= a -> a + 8 <= e + 8 * (n + 1) -> mod a 8 = 0 -> v6[a] } ensures { slots v6 e n }
  = let lemma one (k: int) : unit requires { 0 <= k <= n } ensures { v6[pos e k] } = assert { mod (e + 8 * k) 8 = 0 } in ()
  let ghost slots_kept (v6 v6': map int bool) (e n: int) : unit
    requires { slots v6 e n /\ forall a. v6[a] -> v6'[a] } ensures { slots v6' e n } = ()
  predicate copied (w w': map int int) (e e' i: int) = forall j [ent w' e' j]. 0 <= j < i -> ent w' e' j = ent w e j
  let ghost copy_one (w w' w'': map int int) (e e' i x: int) : unit
    requires { 0 <= i /\ copied w w' e e' i /\ x = ent w e i /\ w'' = set w' (e' + 8 * i) x } ensures { copied w w'' e e' (i + 1) }
  = let lemma same (j: int) : unit requires { 0 <= j < i } ensures { ent w'' e' j = ent w e j } = assert { ent w' e' j = ent w e j } in assert { ent w'' e' i = x }
  (* storing p as entry k and the terminator as entry n' *)
  let ghost set_one (w w': map int int) (e e' n n' k p: int) (wn: map int int) : unit
    requires { 0 <= k < n' /\ (k < n /\ n' = n \/ k = n /\ n' = n + 1) /\ copied w wn e e' n /\ wn[e' + 8 * n'] = 0 /\ w' = set wn (e' + 8 * k) p }
    ensures { ent w' e' k = p /\ ent w' e' n' = 0 /\ forall j [ent w' e' j]. 0 <= j < n -> j <> k -> ent w' e' j = ent w e j }
    ensures { forall j [ent w' e' j]. 0 <= j < n' -> ent w' e' j = if j = k then p else ent w e j }
  = let lemma same (j: int) : unit requires { 0 <= j < n /\ j <> k } ensures { ent w' e' j = ent w e j } = assert { ent wn e' j = ent w e j } in ()
  let ghost ok_again (m m' w w': map int int) (v v' v6 v6': map int bool) (e e' n n' k p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a] /\ v'[a]) /\ slots v6' e' n' /\ vstr m' v' p /\ 0 < e' /\ 0 <= k < n' /\ n <= n' <= n + 1 }
    requires { k < n /\ n' = n \/ k = n /\ n' = n + 1 }
    requires { ent w' e' n' = 0 /\ forall j [ent w' e' j]. 0 <= j < n' -> ent w' e' j = if j = k then p else ent w e j }
    ensures { env_ok m' w' v' v6' e' n' }
  = let lemma one (j: int) : unit requires { 0 <= j < n' } ensures { ent w' e' j <> 0 /\ vstr m' v' (ent w' e' j) }
    = if j <> k then begin assert { vstr m v (ent w e j) }; str_kept m m' v (ent w e j) end in ()
  let ghost now_first (m m' w w': map int int) (v v6: map int bool) (e e' n n' k s p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a]) /\ vstr m v s /\ none_before m w e k s /\ 0 <= k < n' /\ k <= n /\ named m' p s }
    requires { forall j [ent w' e' j]. 0 <= j < n' -> ent w' e' j = if j = k then p else ent w e j }
    ensures { value m' w' e' n' s = p + slen m s + 1 }
  = let lemma one (j: int) : unit requires { 0 <= j < k } ensures { not named m' (ent w' e' j) s } = named_kept m m' v (ent w e j) s in
    str_kept m m' v s; first_is m' w' e' n' s k
  (* p holds s, =, x one after the other *)
  let ghost joined (m m1 m2 m3: map int int) (v v': map int bool) (p s x: int) : unit
    requires { 0 < p /\ vstr m v s /\ vstr m v x /\ plain m s /\ slen m s + slen m x <= 2147483640 /\ range v' p (slen m s + slen m x + 2) /\ (forall a. v[a] -> m1[a] = m[a] /\ m2[a] = m[a] /\ m3[a] = m[a]) }
    requires { forall a. p <= a < p + slen m s -> m1[a] = m[s + (a - p)] }
    requires { m2[p + slen m s] = 61 /\ forall a. p <= a < p + slen m s -> m2[a] = m1[a] }
    requires { (forall a. p <= a <= p + slen m s -> m3[a] = m2[a]) /\ forall a. p + slen m s + 1 <= a <= p + slen m s + 1 + slen m x -> m3[a] = m[x + (a - (p + slen m s + 1))] }
    ensures { named m3 p s /\ vstr m3 v' p /\ slen m3 (p + slen m s + 1) = slen m x /\ vstr m3 v s /\ vstr m3 v x /\ slen m3 s = slen m s /\ slen m3 x = slen m x }
    ensures { forall a. x <= a <= x + slen m x -> m3[p + slen m s + 1 + (a - x)] = m3[a] }
  = str_kept m m3 v s; str_kept m m3 v x;
    assert { m3[p + slen m s + 1 + slen m x] = m[x + slen m x] };
    assert { forall a. p + slen m s + 1 <= a < p + slen m s + 1 + slen m x -> m3[a] <> 0 };
    slen_is m3 (p + slen m s + 1) (slen m x);
    assert { forall a. p <= a < p + slen m s -> m3[a] <> 0 };
    slen_is m3 p (slen m s + 1 + slen m x);
    assert { forall a. s <= a < s + slen m s -> m3[p + (a - s)] = m3[a] }

  (* what setenv achieves: n' entries, s has the value x, the other names have theirs *)
  predicate was_set (m m' w w': map int int) (v v' v6': map int bool) (e e' n n' s x: int) =
    env_ok m' w' v' v6' e' n' /\ let y = value m' w' e' n' s in y <> 0 /\ slen m' y = slen m' x /\ (forall a. x <= a <= x + slen m' x -> m'[y + (a - x)] = m'[a])
    /\ others_kept m m' w w' v e e' n n' s
  let ghost finish_replace (m m' w w': map int int) (v v' v6 v6': map int bool) (e n k s x p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a] /\ v'[a]) /\ (forall a. v6[a] -> v6'[a]) /\ vstr m v s /\ plain m s /\ none_before m w e k s /\ 0 <= k < n }
    requires { 0 < p /\ named m (ent w e k) s /\ vstr m' v' p /\ named m' p s /\ slen m' (p + slen m s + 1) = slen m' x /\ forall a. x <= a <= x + slen m' x -> m'[p + slen m s + 1 + (a - x)] = m'[a] }
    requires { w' = set w (e + 8 * k) p }
    ensures { first m w e n s = k } ensures { was_set m m' w w' v v' v6' e e n n s x }
  = set_one w w' e e n n k p w; slots_kept v6 v6' e n; ok_again m m' w w' v v' v6 v6' e e n n k p; now_first m m' w w' v v6 e e n n k s p; replaced m m' w w' v v6 e n s k p;
    first_is m w e n s k
  let ghost finish_append (m m' w wb w': map int int) (v v' v6 v6': map int bool) (e e' n s x p: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> m'[a] = m[a] /\ v'[a]) /\ slots v6' e' (n + 1) /\ vstr m v s /\ plain m s /\ none_before m w e n s /\ 0 < e' }
    requires { 0 < p /\ vstr m' v' p /\ named m' p s /\ slen m' (p + slen m s + 1) = slen m' x /\ forall a. x <= a <= x + slen m' x -> m'[p + slen m s + 1 + (a - x)] = m'[a] }
    requires { copied w wb e e' n /\ w' = set (set wb (e' + 8 * n + 8) 0) (e' + 8 * n) p }
    ensures { first m w e n s = n } ensures { was_set m m' w w' v v' v6' e e' n (n + 1) s x }
  = let wn = pure { set wb (e' + 8 * n + 8) 0 } in
    let lemma same (j: int) : unit requires { 0 <= j < n } ensures { ent wn e' j = ent w e j } = assert { ent wb e' j = ent w e j } in
    set_one w w' e e' n (n + 1) n p wn; ok_again m m' w w' v v' v6 v6' e e' n (n + 1) n p; now_first m m' w w' v v6 e e' n (n + 1) n s p; appended m m' w w' v v6 e e' n s p;
    first_is m w e n s n
end
