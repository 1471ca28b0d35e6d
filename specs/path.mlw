(* Looking a program up in the directories of PATH. *)
module Path
  use mem.Mem
  use mem.Str
  use env.Env

  (* a directory entry of the search path at p starts at a; entries are separated by : *)
  predicate entry (m: map int int) (p a: int)
  axiom entry_def: forall m p a [entry m p a]. entry m p a <-> p <= a <= p + slen m p /\ (a = p \/ m[a - 1] = 58)
  (* where the entry that starts at a ends *)
  function entry_end (m: map int int) (a: int) : int
  axiom entry_end_def: forall m a [entry_end m a]. str m a -> a <= entry_end m a <= a + slen m a /\ (m[entry_end m a] = 58 \/ entry_end m a = a + slen m a)
    /\ forall x. a <= x < entry_end m a -> m[x] <> 58
  function entry_length (m: map int int) (a: int) : int = entry_end m a - a
  (* 1 if a slash goes between the directory and the name; an empty entry is the current directory *)
  function slash (m: map int int) (a: int) : int = if entry_length m a > 0 && m[entry_end m a - 1] <> 47 then 1 else 0
  (* the string at b (in n) is the name f in the directory of the entry at a (in m) *)
  predicate cand (m n: map int int) (b a f: int)
  axiom cand_def: forall m n b a f [cand m n b a f]. cand m n b a f <-> (slen n b = entry_length m a + slash m a + slen m f
    /\ (forall x. b <= x < b + entry_length m a -> n[x] = m[a + (x - b)])
    /\ (slash m a = 1 -> n[b + entry_length m a] = 47)
    /\ (forall x. b + entry_length m a + slash m a <= x < b + entry_length m a + slash m a + slen m f -> n[x] = m[f + (x - (b + entry_length m a + slash m a))]))
  (* the system lets the program named by the string at b be executed: depends on the characters of the name only,
     and does not change during a search *)
  predicate executable (m: map int int) (b: int)
  predicate holds (m: map int int) (a f: int)
  axiom holds_def: forall m n b a f [cand m n b a f, executable n b]. str n b -> cand m n b a f -> (executable n b <-> holds m a f)
  (* what access (b, X_OK) answers *)
  val ghost kernel_access (m: map int int) (b how r: int) : unit
    ensures { how = 1 -> -4095 <= r <= 0 /\ (r = 0 <-> executable m b) }

  (* the first entry that holds f; -1 if there is none *)
  function first_dir (m: map int int) (p f: int) : int
  axiom first_dir_def: forall m p f [first_dir m p f]. str m p -> (first_dir m p f = -1 \/ entry m p (first_dir m p f) /\ holds m (first_dir m p f) f)
    /\ (forall b [entry m p b]. entry m p b -> b < first_dir m p f \/ first_dir m p f = -1 -> not holds m b f)
  predicate none_to (m: map int int) (p f a: int) = forall b [entry m p b]. entry m p b -> b < a -> not holds m b f

  let ghost is_first (m: map int int) (p f a: int) : unit
    requires { str m p /\ entry m p a /\ holds m a f /\ none_to m p f a } ensures { first_dir m p f = a }
  = let k = first_dir m p f in assert { entry m p a }; assert { k <> -1 -> entry m p k }
  let ghost is_none (m: map int int) (p f: int) : unit
    requires { str m p /\ none_to m p f (p + slen m p + 1) } ensures { first_dir m p f = -1 }
  = let k = first_dir m p f in assert { k <> -1 -> entry m p k }
  (* the entry after the one at a starts behind its separator *)
  let ghost next_entry (m: map int int) (p f a: int) : unit
    requires { str m p /\ entry m p a /\ none_to m p f a /\ not holds m a f /\ str m a /\ slen m a = p + slen m p - a }
    ensures { m[entry_end m a] = 0 -> none_to m p f (p + slen m p + 1) }
    ensures { m[entry_end m a] <> 0 -> entry m p (entry_end m a + 1) /\ none_to m p f (entry_end m a + 1) }
  = let e = entry_end m a in
    let lemma between (b: int) : unit requires { entry m p b /\ b <= e } ensures { b <= a } = if b > a then assert { m[b - 1] = 58 /\ a <= b - 1 < e } in
    assert { m[e] = 0 -> e = p + slen m p }
  let ghost tail (m: map int int) (v: map int bool) (p a: int) : unit
    requires { vstr m v p /\ p <= a <= p + slen m p } ensures { vstr m v a /\ slen m a = p + slen m p - a }
  = slen_is m a (p + slen m p - a)
  let ghost end_is (m: map int int) (a e: int) : unit
    requires { str m a /\ a <= e <= a + slen m a /\ (m[e] = 58 \/ m[e] = 0) /\ forall x. a <= x < e -> m[x] <> 58 } ensures { entry_end m a = e }
  = let k = entry_end m a in assert { k < e -> m[k] <> 58 /\ m[k] <> 0 }; assert { e < k -> m[e] <> 58 /\ m[e] <> 0 }

  (* the directory has been written to b, with or without a slash *)
  let ghost half (m n: map int int) (v: map int bool) (b a l s: int) : unit
    requires { l <= 2147483646 /\ str m a /\ 0 < b /\ 0 <= l <= slen m a /\ range v b (l + s + 1) /\ (s = 0 \/ s = 1 /\ n[b + l] = 47) /\ n[b + l + s] = 0 }
    requires { forall x. b <= x < b + l -> n[x] = m[a + (x - b)] }
    ensures { vstr n v b /\ slen n b = l + s }
  = assert { forall x. b <= x < b + l -> n[x] <> 0 }; slen_is n b (l + s)
  let ghost whole (m n: map int int) (v: map int bool) (b a l s f: int) : unit
    requires { str m a /\ str m f /\ 0 < b /\ 0 <= l <= slen m a /\ entry_end m a = a + l /\ slen m f <= 2147483646 /\ l <= 2147483646 /\ range v b (l + s + slen m f + 1) /\ s = slash m a /\ (s = 1 -> n[b + l] = 47) }
    requires { forall x. b <= x < b + l -> n[x] = m[a + (x - b)] }
    requires { forall x. b + l + s <= x <= b + l + s + slen m f -> n[x] = m[f + (x - (b + l + s))] }
    ensures { vstr n v b /\ cand m n b a f }
  = assert { forall x. b <= x < b + l -> n[x] <> 0 };
    assert { forall x. b + l + s <= x < b + l + s + slen m f -> n[x] <> 0 };
    assert { n[b + l + s + slen m f] = m[f + slen m f] };
    slen_is n b (l + s + slen m f)

  (* a string PATH *)
  predicate is_path (m: map int int) (w: int) = slen m w = 4 /\ m[w] = 80 /\ m[w + 1] = 65 /\ m[w + 2] = 84 /\ m[w + 3] = 72
  let ghost same_path (m w: map int int) (e n s t: int) : unit
    requires { is_path m s /\ is_path m t /\ 0 <= n } ensures { value m w e n s = value m w e n t }
  = let lemma same (p: int) : unit ensures { named m p s <-> named m p t }
    = assert { named m p s <-> m[p] = 80 /\ m[p + 1] = 65 /\ m[p + 2] = 84 /\ m[p + 3] = 72 /\ m[p + 4] = 61 };
      assert { named m p t <-> m[p] = 80 /\ m[p + 1] = 65 /\ m[p + 2] = 84 /\ m[p + 3] = 72 /\ m[p + 4] = 61 } in
    first_is m w e n t (first m w e n s)
  let ghost value_str (m w: map int int) (v v6: map int bool) (e n s: int) : unit
    requires { env_ok m w v v6 e n /\ vstr m v s /\ value m w e n s <> 0 } ensures { vstr m v (value m w e n s) }
  = let p = ent w e (first m w e n s) in
    assert { named m p s };
    assert { slen m p < slen m s -> m[p + slen m p] = 0 /\ m[s + slen m p] <> 0 /\ m[p + ((s + slen m p) - s)] = m[s + slen m p] };
    tail m v p (p + slen m s + 1)
end
