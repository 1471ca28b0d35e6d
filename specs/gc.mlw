(* The copying collector.  w_... is the heap when a collection starts. *)
module Gc
  use mem.Mem
  use scm.Scm
  val ref g_news : int
  val ref g_symbols : int
  val ref g_macros : int
  val ref g_symbol_max : int
  val ref cell_arena : int
  val ref cell_zero : int
  (* ghost: the copies made so far (cells of new objects and of their element blocks), what each is a copy of,
     and how far they have been relocated *)
  val ghost ref gh_nd : map int bool
  val ghost ref gh_src : map int int
  val ghost ref gh_cs : int
  val ghost ref gh_ds : int
  (* ghost: the old heap's headers when all is copied: which objects have a copy, and where it is *)
  val ghost ref gh_fty : map int int
  val ghost ref gh_fcar : map int int
  constant w_ty : map int int
  constant w_car : map int int
  constant w_cdr : map int int
  constant w_m8 : map int int
  constant w_ob : map int bool     (* any set of objects closed under reference *)
  constant w_el : map int bool     (* the cells in the blocks of its vectors and records *)
  constant w_lo : int
  constant w_hi : int
  constant w_lim : int             (* the end of the storage *)

  predicate carp (t: int) = t = tMACRO \/ t = tPAIR \/ t = tREF \/ t = tVARIABLE
  predicate cdrp (t: int) = t = tCLOSURE \/ t = tCONTINUATION \/ t = tKEYWORD \/ t = tMACRO \/ t = tPAIR \/ t = tPORT \/ t = tSPECIAL \/ t = tSTRING \/ t = tSYMBOL \/ t = tVALUES
  predicate vecp (t: int) = t = tSTRUCT \/ t = tVECTOR
  function sz (o: int) : int = if w_ty[o] = tBYTES then bcells w_car[o] else 1
  function cells (o: int) : int = if vecp w_ty[o] then 1 + w_car[o] else sz o

  predicate world =
    0 < w_lo < w_hi /\ w_hi + 72 <= w_lim <= 100000000000000 /\ mod (w_hi - w_lo) 24 = 0
    /\ (forall o. w_ob[o] -> w_lo <= o /\ o + 24 <= w_hi /\ mod (o - w_lo) 24 = 0 /\ 0 <= w_ty[o] < tBROKEN_HEART
         /\ (carp w_ty[o] -> w_ob[w_car[o]]) /\ (cdrp w_ty[o] -> w_ob[w_cdr[o]])
         /\ (w_ty[o] = tBYTES -> 0 <= w_car[o] <= 2147483647 /\ o + 24 * bcells w_car[o] <= w_hi)
         /\ (vecp w_ty[o] -> 0 <= w_car[o] /\ w_lo <= w_cdr[o] /\ w_cdr[o] + 24 * w_car[o] <= w_hi))
    /\ (forall o e. w_ob[o] -> vecp w_ty[o] -> w_cdr[o] <= e < w_cdr[o] + 24 * w_car[o] -> mod (e - w_cdr[o]) 24 = 0 -> w_el[e])
    /\ (forall e. w_el[e] -> w_lo <= e /\ e + 24 <= w_hi /\ mod (e - w_lo) 24 = 0 /\ not w_ob[e] /\ 0 <= w_ty[e] < tBROKEN_HEART /\ not vecp w_ty[e] /\ w_ty[e] <> tBYTES
         /\ (carp w_ty[e] -> w_ob[w_car[e]]) /\ (cdrp w_ty[e] -> w_ob[w_cdr[e]]))

  predicate done_ (ty: map int int) (o: int) = w_ob[o] /\ ty[o] = tBROKEN_HEART
  (* the old heap: only headers of copied objects are overwritten *)
  predicate old_ok (ty car cdr m: map int int) =
    forall a. a < w_hi -> cdr[a] = w_cdr[a] /\ m[a] = w_m8[a] /\ (done_ ty a \/ (ty[a] = w_ty[a] /\ car[a] = w_car[a]))
  predicate fw_ok (ty car: map int int) (nd: map int bool) (src: map int int) =
    forall o. done_ ty o -> nd[car[o]] /\ src[car[o]] = o
  predicate org (ty car: map int int) (nd: map int bool) (src: map int int) (free: int) =
    forall n. nd[n] -> w_hi + 48 <= n /\ mod (n - w_hi) 24 = 0 /\ n + 24 * sz src[n] <= free /\ (n + 24 * sz src[n] = free \/ nd[n + 24 * sz src[n]])
      /\ (w_el[src[n]] \/ (done_ ty src[n] /\ car[src[n]] = n))
  predicate sep (nd: map int bool) (src: map int int) =
    forall n k. nd[n] -> nd[k] -> n < k -> n + 24 * sz src[n] <= k
  predicate payload (m: map int int) (n s: int) = forall a. n + 16 <= a < n + 16 + w_car[s] -> m[a] = w_m8[s + (a - n)]
  (* the copy n of s *)
  predicate car_ok (ty car: map int int) (cs n s: int) =
    if carp w_ty[s] && n < cs then done_ ty w_car[s] /\ car[n] = car[w_car[s]] else car[n] = w_car[s]
  predicate cdr_ok (ty car cdr: map int int) (nd: map int bool) (src: map int int) (ds n s: int) =
    if vecp w_ty[s] then w_hi + 48 <= cdr[n] <= n + 24 /\ forall e. cdr[n] <= e < cdr[n] + 24 * w_car[s] -> mod (e - cdr[n]) 24 = 0 -> nd[e] /\ src[e] = w_cdr[s] + (e - cdr[n])
    else if cdrp w_ty[s] && n < ds then done_ ty w_cdr[s] /\ cdr[n] = car[w_cdr[s]] else w_ty[s] = tBYTES \/ cdr[n] = w_cdr[s]
  predicate copies (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds: int) =
    forall n. nd[n] -> ty[n] = w_ty[src[n]] /\ car_ok ty car cs n src[n] /\ cdr_ok ty car cdr nd src ds n src[n]
      /\ (w_ty[src[n]] = tBYTES -> payload m n src[n])
  predicate inv (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int) =
    w_hi + 48 <= free /\ mod (free - w_hi) 24 = 0 /\ (w_hi + 48 = free \/ nd[w_hi + 48]) /\ cs <= free /\ ds <= free
    /\ old_ok ty car cdr m /\ fw_ok ty car nd src /\ org ty car nd src free /\ sep nd src /\ copies ty car cdr m nd src cs ds

  (* the cells still to be copied *)
  let rec ghost function todo (ty: map int int) (h: int) : int
    variant { h - w_lo }
  = if h <= w_lo then 0 else todo ty (h - 1) + (if w_ob[h - 1] && ty[h - 1] <> tBROKEN_HEART then cells (h - 1) else 0)
  let rec ghost rest_same (ty ty2: map int int) (h: int) : unit
    requires { world }
    requires { forall a. a < h -> ty2[a] = ty[a] }
    ensures { todo ty2 h = todo ty h /\ 0 <= todo ty h }
    variant { h - w_lo }
  = if h <= w_lo then () else rest_same ty ty2 (h - 1)
  let rec ghost rest_one (ty ty2: map int int) (h o: int) : unit
    requires { world /\ w_lo <= o < h /\ w_ob[o] /\ ty[o] <> tBROKEN_HEART /\ ty2[o] = tBROKEN_HEART }
    requires { forall a. a < h -> a <> o -> ty2[a] = ty[a] }
    ensures { todo ty2 h = todo ty h - cells o /\ 0 <= todo ty2 h /\ 1 <= cells o }
    variant { h - w_lo }
  = assert { forall a. w_ob[a] -> 1 <= cells a };
    if o = h - 1 then begin rest_same ty ty2 o; assert { todo ty h = todo ty o + cells o }; assert { todo ty2 h = todo ty2 o } end
    else begin rest_one ty ty2 (h - 1) o;
      assert { todo ty h = todo ty (h - 1) + (if w_ob[h - 1] && ty[h - 1] <> tBROKEN_HEART then cells (h - 1) else 0) };
      assert { todo ty2 h = todo ty2 (h - 1) + (if w_ob[h - 1] && ty2[h - 1] <> tBROKEN_HEART then cells (h - 1) else 0) } end

  (* one object o is copied to free *)
  predicate kept_below (ty car cdr m ty2 car2 cdr2 m2: map int int) (free o: int) =
    forall a. a < free -> cdr2[a] = cdr[a] /\ m2[a] = m[a] /\ (a <> o -> ty2[a] = ty[a] /\ car2[a] = car[a])
  predicate nodes_below (nd nd2: map int bool) (src src2: map int int) (free: int) =
    forall a. a < free -> nd2[a] = nd[a] /\ src2[a] = src[a]
  predicate block_of (ty2 car2 cdr2: map int int) (nd2: map int bool) (src2: map int int) (b o k: int) =
    forall e. b <= e < b + 24 * k -> mod (e - b) 24 = 0 -> nd2[e] /\ src2[e] = w_cdr[o] + (e - b) /\ ty2[e] = w_ty[src2[e]] /\ car2[e] = w_car[src2[e]] /\ cdr2[e] = w_cdr[src2[e]]
  predicate none_above (nd2: map int bool) (b h: int) = forall e. e > b -> nd2[e] -> b + 24 <= e < h /\ mod (e - b) 24 = 0
  predicate copied (ty2 car2 cdr2 m2: map int int) (nd2: map int bool) (src2: map int int) (free free2 o: int) =
    ty2[o] = tBROKEN_HEART /\ car2[o] = free /\ nd2[free] /\ src2[free] = o /\ ty2[free] = w_ty[o] /\ car2[free] = w_car[o]
    /\ free2 = free + 24 * cells o
    /\ (if vecp w_ty[o] then cdr2[free] = free + 24 /\ block_of ty2 car2 cdr2 nd2 src2 (free + 24) o w_car[o] /\ none_above nd2 free free2
        else (w_ty[o] = tBYTES \/ cdr2[free] = w_cdr[o]) /\ none_above nd2 free (free + 24))
    /\ (w_ty[o] = tBYTES -> payload m2 free o)

  let lemma bcells_big (l: int) : unit
    requires { 0 <= l } ensures { 24 * bcells l >= l + 16 /\ bcells l >= 2 }
  = assert { l + 23 = 8 * div (l + 23) 8 + mod (l + 23) 8 }

  let ghost all_payload (m2: map int int) (nd nd2: map int bool) (src2: map int int) (free: int) : unit
    requires { forall n [nd2[n]]. nd2[n] -> nd[n] \/ n = free \/ w_ty[src2[n]] <> tBYTES }
    requires { forall n [nd[n]]. nd[n] -> w_ty[src2[n]] = tBYTES -> payload m2 n src2[n] }
    requires { w_ty[src2[free]] = tBYTES -> payload m2 free src2[free] }
    ensures { forall n [nd2[n]]. nd2[n] -> w_ty[src2[n]] = tBYTES -> payload m2 n src2[n] }
  = ()

  let ghost all_ok (ty2 car2 cdr2: map int int) (nd nd2: map int bool) (src2: map int int) (cs ds free: int) : unit
    requires { forall n [nd2[n]]. nd2[n] -> nd[n] \/ n = free \/ n > free }
    requires { forall n [nd[n]]. nd[n] -> car_ok ty2 car2 cs n src2[n] /\ cdr_ok ty2 car2 cdr2 nd2 src2 ds n src2[n] }
    requires { car_ok ty2 car2 cs free src2[free] /\ cdr_ok ty2 car2 cdr2 nd2 src2 ds free src2[free] }
    requires { forall n [nd2[n]]. nd2[n] -> n > free -> car_ok ty2 car2 cs n src2[n] /\ cdr_ok ty2 car2 cdr2 nd2 src2 ds n src2[n] }
    ensures { forall n [nd2[n]]. nd2[n] -> car_ok ty2 car2 cs n src2[n] /\ cdr_ok ty2 car2 cdr2 nd2 src2 ds n src2[n] }
  = ()

  let ghost el_of (o s d: int) : unit
    requires { world /\ w_ob[o] /\ vecp w_ty[o] /\ s = w_cdr[o] + d /\ 0 <= d < 24 * w_car[o] /\ mod d 24 = 0 }
    ensures { w_el[s] }
  = assert { s - w_cdr[o] = d }
  let ghost block_el (ty2 car2 cdr2: map int int) (nd2: map int bool) (src2: map int int) (b o: int) : unit
    requires { world /\ w_ob[o] /\ vecp w_ty[o] /\ block_of ty2 car2 cdr2 nd2 src2 b o w_car[o] }
    ensures { forall n [nd2[n]]. b <= n < b + 24 * w_car[o] -> mod (n - b) 24 = 0 -> w_el[src2[n]] }
  = let lemma al (n: int) : unit
      requires { b <= n < b + 24 * w_car[o] /\ mod (n - b) 24 = 0 }
      ensures { w_el[src2[n]] }
    = assert { src2[n] = w_cdr[o] + (n - b) }; el_of o src2[n] (n - b) in
    ()

  let ghost copy_step (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int)
                      (ty2 car2 cdr2 m2: map int int) (nd2: map int bool) (src2: map int int) (free2 o: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free }
    requires { w_ob[o] /\ not done_ ty o }
    requires { kept_below ty car cdr m ty2 car2 cdr2 m2 free o }
    requires { nodes_below nd nd2 src src2 free }
    requires { copied ty2 car2 cdr2 m2 nd2 src2 free free2 o }
    ensures { inv ty2 car2 cdr2 m2 nd2 src2 cs ds free2 }
  = assert { old_ok ty2 car2 cdr2 m2 };
    assert { forall n. nd[n] -> n < free /\ nd2[n] /\ src2[n] = src[n] };
    assert { forall n. nd2[n] -> n > free -> mod (n - free) 24 = 0 /\ free + 24 <= n };
    assert { forall n. nd2[n] -> n > free -> mod (n - (free + 24)) 24 = 0 };
    if pure { vecp w_ty[o] } then block_el ty2 car2 cdr2 nd2 src2 (free + 24) o;
    assert { forall n [nd2[n]]. nd2[n] -> n < free -> nd[n] };
    assert { not vecp w_ty[o] -> forall n [nd2[n]]. nd2[n] -> n <= free };
    assert { vecp w_ty[o] -> forall n [nd2[n]]. nd2[n] -> n > free -> free + 24 <= n < free2 /\ mod (n - (free + 24)) 24 = 0 /\ w_el[src2[n]] };
    assert { forall n [nd2[n]]. nd2[n] -> nd[n] \/ n = free \/ (vecp w_ty[o] /\ free + 24 <= n < free2 /\ mod (n - (free + 24)) 24 = 0 /\ w_el[src2[n]]) };
    assert { fw_ok ty2 car2 nd2 src2 };
    assert { forall n. nd[n] -> w_el[src2[n]] \/ (done_ ty2 src2[n] /\ car2[src2[n]] = n) };
    assert { forall n. nd[n] -> n + 24 * sz src[n] <= free2 };
    assert { forall n. nd[n] -> n + 24 * sz src[n] = free \/ nd[n + 24 * sz src[n]] };
    assert { nd2[free] };
    assert { forall n [nd[n]]. nd[n] -> nd2[n] };
    assert { forall n [sz src[n]]. nd[n] -> let k = n + 24 * sz src[n] in k = free \/ nd[k] };
    assert { forall n [sz src[n]]. nd[n] -> nd2[n + 24 * sz src[n]] };
    assert { forall n [nd[n]]. nd[n] -> src2[n] = src[n] };
    assert { forall n [nd[n]]. nd[n] -> sz src2[n] = sz src[n] };
    assert { forall n. nd[n] -> n + 24 * sz src2[n] <= free2 /\ nd2[n + 24 * sz src2[n]] };
    assert { vecp w_ty[o] -> sz o = 1 };
    assert { not vecp w_ty[o] -> free2 = free + 24 * sz o };
    assert { vecp w_ty[o] -> 0 < w_car[o] -> nd2[free + 24] };
    assert { free + 24 * sz o = free2 \/ nd2[free + 24 * sz o] };
    assert { vecp w_ty[o] -> forall n. nd2[n] -> n > free -> sz src2[n] = 1 /\ n + 24 <= free2 };
    assert { vecp w_ty[o] -> forall n. nd2[n] -> n > free -> n + 24 < free2 -> mod (n + 24 - (free + 24)) 24 = 0 };
    assert { vecp w_ty[o] -> forall n. nd2[n] -> n > free -> n + 24 = free2 \/ nd2[n + 24] };
    assert { org ty2 car2 nd2 src2 free2 };
    assert { forall n k. nd[n] -> nd[k] -> n < k -> n + 24 * sz src2[n] <= k };
    assert { forall n k. nd[n] -> nd2[k] -> k >= free -> n + 24 * sz src2[n] <= k };
    assert { forall k. nd2[k] -> free < k -> free + 24 * sz o <= k };
    assert { forall n k. nd2[n] -> nd2[k] -> free < n < k -> sz src2[n] = 1 /\ mod (n - free) 24 = 0 /\ mod (k - free) 24 = 0 };
    assert { forall n k. nd2[n] -> nd2[k] -> free < n < k -> n + 24 <= k };
    assert { forall n k. nd2[n] -> nd2[k] -> free < n < k -> n + 24 * sz src2[n] <= k };
    assert { sep nd2 src2 };
    assert { forall p. done_ ty p -> done_ ty2 p /\ car2[p] = car[p] };
    assert { forall n. nd[n] -> car_ok ty2 car2 cs n src2[n] };
    assert { forall n. nd[n] -> cdr_ok ty2 car2 cdr2 nd2 src2 ds n src2[n] };
    assert { car_ok ty2 car2 cs free o };
    assert { cdr_ok ty2 car2 cdr2 nd2 src2 ds free o };
    assert { forall n. nd2[n] -> n > free -> ty2[n] = w_ty[src2[n]] /\ w_ty[src2[n]] <> tBYTES /\ not vecp w_ty[src2[n]] /\ car2[n] = w_car[src2[n]] /\ cdr2[n] = w_cdr[src2[n]] };
    assert { forall n. nd2[n] -> n > free -> car_ok ty2 car2 cs n src2[n] /\ cdr_ok ty2 car2 cdr2 nd2 src2 ds n src2[n] };
    assert { forall n. nd[n] -> ty2[n] = w_ty[src2[n]] };
    assert { forall n. nd[n] -> w_ty[src2[n]] = tBYTES -> n + 16 + w_car[src2[n]] <= n + 24 * sz src2[n] };
    assert { forall n. nd[n] -> w_ty[src2[n]] = tBYTES -> n + 16 + w_car[src2[n]] <= free };
    assert { forall n. nd[n] -> w_ty[src[n]] = tBYTES -> forall a. n + 16 <= a < n + 16 + w_car[src[n]] -> m[a] = w_m8[src[n] + (a - n)] };
    assert { forall n. nd[n] -> w_ty[src[n]] = tBYTES -> forall a. n + 16 <= a < n + 16 + w_car[src[n]] -> m2[a] = m[a] };
    assert { forall n a. nd[n] -> w_ty[src[n]] = tBYTES -> n + 16 <= a < n + 16 + w_car[src[n]] -> m2[a] = w_m8[src[n] + (a - n)] };
    assert { forall n [nd[n]]. nd[n] -> src2[n] = src[n] };
    assert { forall n. nd[n] -> w_ty[src[n]] = tBYTES -> payload m2 n src[n] };
    assert { forall n. nd[n] -> w_ty[src2[n]] = tBYTES -> payload m2 n src2[n] };
    assert { w_ty[src2[free]] = tBYTES -> payload m2 free src2[free] };
    assert { forall n. nd2[n] -> w_ty[src2[n]] = tBYTES -> nd[n] \/ n = free };
    assert { forall n [nd2[n]]. nd2[n] -> nd[n] \/ n = free \/ w_ty[src2[n]] <> tBYTES };
    assert { forall n [nd[n]]. nd[n] -> w_ty[src2[n]] = tBYTES -> payload m2 n src2[n] };
    all_payload m2 nd nd2 src2 free;
    assert { forall n. nd2[n] -> nd[n] \/ n = free \/ n > free };
    assert { forall n. nd2[n] -> ty2[n] = w_ty[src2[n]] };
    all_ok ty2 car2 cdr2 nd nd2 src2 cs ds free;
    assert { copies ty2 car2 cdr2 m2 nd2 src2 cs ds }

  predicate storage (vs v8: map int bool) = arena_cells vs w_lo w_lim /\ forall a. w_lo <= a < w_lim -> v8[a]

  (* the copy at cs gets its relocated car, the one at ds its relocated cdr *)
  let ghost car_step (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free v: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free /\ nd[cs] /\ w_hi < cs }
    requires { if carp w_ty[src[cs]] then done_ ty w_car[src[cs]] /\ v = car[w_car[src[cs]]] else v = car[cs] }
    ensures { inv ty car[cs <- v] cdr m nd src (cs + 1) ds free }
  = let car2 = car[cs <- v] in
    assert { old_ok ty car2 cdr m };
    assert { forall p. done_ ty p -> car2[p] = car[p] };
    assert { fw_ok ty car2 nd src };
    assert { org ty car2 nd src free };
    assert { car_ok ty car2 (cs + 1) cs src[cs] };
    assert { forall n [nd[n]]. nd[n] -> n <> cs -> car_ok ty car2 (cs + 1) n src[n] };
    assert { forall n [nd[n]]. nd[n] -> car_ok ty car2 (cs + 1) n src[n] };
    assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car2 cdr nd src ds n src[n] }
  let ghost cdr_step (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free v: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free /\ nd[ds] /\ w_hi < ds }
    requires { if cdrp w_ty[src[ds]] then done_ ty w_cdr[src[ds]] /\ v = car[w_cdr[src[ds]]] else v = cdr[ds] }
    ensures { inv ty car cdr[ds <- v] m nd src cs (ds + 1) free }
  = let cdr2 = cdr[ds <- v] in
    assert { old_ok ty car cdr2 m };
    assert { cdr_ok ty car cdr2 nd src (ds + 1) ds src[ds] };
    assert { forall n [nd[n]]. nd[n] -> n <> ds -> cdr_ok ty car cdr2 nd src (ds + 1) n src[n] };
    assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car cdr2 nd src (ds + 1) n src[n] }
  (* no copy starts inside of another one *)
  let ghost next_step (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (n0 free: int) : unit
    requires { world /\ inv ty car cdr m nd src (n0 + 1) (n0 + 1) free /\ nd[n0] }
    ensures { let p = n0 + 24 * sz src[n0] in inv ty car cdr m nd src p p free /\ (p = free \/ nd[p]) /\ p <= free /\ n0 < p }
  = let ghost p = n0 + 24 * sz src[n0] in
    assert { 1 <= sz src[n0] };
    assert { forall n [nd[n]]. nd[n] -> (n < p <-> n < n0 + 1) };
    assert { forall n [nd[n]]. nd[n] -> car_ok ty car p n src[n] };
    assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car cdr nd src p n src[n] }

  let rec ghost rest_has (ty: map int int) (h o: int) : unit
    requires { world /\ w_lo <= o < h /\ w_ob[o] /\ ty[o] <> tBROKEN_HEART }
    ensures { cells o <= todo ty h /\ 1 <= cells o }
    variant { h - w_lo }
  = rest_same ty ty (h - 1); if o < h - 1 then rest_has ty (h - 1) o
  let ghost room_for (ty: map int int) (vs v8: map int bool) (free o: int) : unit
    requires { world /\ storage vs v8 /\ w_ob[o] /\ w_hi + 48 <= free /\ mod (free - w_hi) 24 = 0 /\ free <= w_lim }
    ensures { vs[o] /\ w_lo <= o < w_hi }
    ensures { ty[o] <> tBROKEN_HEART -> 1 <= cells o <= 100000000000000 /\ (free + 24 * cells o <= w_lim -> vs[free] /\ (forall a. free <= a < free + 24 * cells o -> mod (a - (free + 24)) 24 = 0 -> vs[a])) }
    ensures { ty[o] <> tBROKEN_HEART -> free + 24 * cells o <= w_lim -> forall a. free <= a < free + 24 * cells o -> v8[a] }
    ensures { vecp w_ty[o] -> forall a. w_cdr[o] <= a < w_cdr[o] + 24 * w_car[o] -> mod (a - w_cdr[o]) 24 = 0 -> vs[a] /\ w_el[a] /\ w_lo <= a < w_hi /\ not w_ob[a] }
    ensures { w_ty[o] = tBYTES -> 0 <= w_car[o] /\ o + 16 + w_car[o] <= w_hi /\ forall a. o <= a < o + 24 * bcells w_car[o] -> v8[a] }
    ensures { 0 <= todo ty w_hi }
  = rest_same ty ty w_hi;
    if pure { ty[o] <> tBROKEN_HEART } then begin
      rest_has ty w_hi o;
      assert { mod (free - w_lo) 24 = 0 };
      assert { forall a. free <= a < free + 24 * cells o -> mod (a - (free + 24)) 24 = 0 -> mod (a - w_lo) 24 = 0 }
    end

  let ghost mod24 (b i: int) : unit
    ensures { mod (b + 24 * i - b) 24 = 0 }
  = assert { b + 24 * i - b = 24 * i + 0 }

  let ghost el_cell (vs v8: map int bool) (e: int) : unit
    requires { world /\ storage vs v8 /\ w_el[e] }
    ensures { vs[e] /\ w_lo <= e < w_hi /\ not w_ob[e] }
  = ()
  let ghost block_cell (o i: int) : unit
    requires { world /\ w_ob[o] /\ vecp w_ty[o] /\ 0 <= i < w_car[o] }
    ensures { w_el[w_cdr[o] + 24 * i] }
  = mod24 w_cdr[o] i

  (* copies from b to e, to be moved down by d *)
  function nsz (ty car: map int int) (n: int) : int = if ty[n] = tBYTES then bcells car[n] else 1
  predicate row (ty car cdr: map int int) (nd: map int bool) (b e d: int) =
    (forall n. nd[n] -> b <= n /\ mod (n - b) 24 = 0 /\ 0 <= ty[n] < tBROKEN_HEART /\ n + 24 * nsz ty car n <= e /\ (n + 24 * nsz ty car n = e \/ nd[n + 24 * nsz ty car n])
       /\ (ty[n] = tBYTES -> 0 <= car[n] <= 2147483647)
       /\ (carp ty[n] -> d <= car[n] <= 100000000000000) /\ (cdrp ty[n] \/ vecp ty[n] -> d <= cdr[n] <= 100000000000000))
    /\ (forall n k. nd[n] -> nd[k] -> n < k -> n + 24 * nsz ty car n <= k)
  predicate moved (ty car cdr m ty2 car2 cdr2 m2: map int int) (d n: int) =
    ty2[n - d] = ty[n] /\ car2[n - d] = (if carp ty[n] then car[n] - d else car[n])
    /\ (ty[n] = tBYTES \/ cdr2[n - d] = (if cdrp ty[n] || vecp ty[n] then cdr[n] - d else cdr[n]))
    /\ (ty[n] = tBYTES -> forall a. n - d + 16 <= a < n - d + 16 + car[n] -> m2[a] = m[a + d])

  let ghost move_step (ty car cdr m tyb carb cdrb mb ty2 car2 cdr2 m2: map int int) (nd: map int bool) (b e d p: int) : unit
    requires { row ty car cdr nd b e d /\ nd[p] /\ 0 < d }
    requires { forall k. nd[k] -> k < p -> moved ty car cdr m tyb carb cdrb mb d k }
    requires { moved ty car cdr m ty2 car2 cdr2 m2 d p }
    requires { forall a. a <> p - d -> ty2[a] = tyb[a] /\ car2[a] = carb[a] /\ cdr2[a] = cdrb[a] }
    requires { forall a. a < p - d -> m2[a] = mb[a] }
    ensures { forall k. nd[k] -> k < p + 24 * nsz ty car p -> moved ty car cdr m ty2 car2 cdr2 m2 d k }
  = assert { forall k. nd[k] -> k < p + 24 * nsz ty car p -> k <= p };
    assert { forall k. nd[k] -> k < p -> k + 24 * nsz ty car k <= p };
    assert { forall k. nd[k] -> k < p -> ty[k] = tBYTES -> k + 16 + car[k] <= p };
    assert { forall k. nd[k] -> k < p -> k + 24 <= p };
    assert { forall k. nd[k] -> k < p -> moved ty car cdr m ty2 car2 cdr2 m2 d k }

  let ghost row_next (ty car cdr: map int int) (nd: map int bool) (b e d p: int) : unit
    requires { row ty car cdr nd b e d /\ nd[p] }
    ensures { let q = p + 24 * nsz ty car p in q = e \/ nd[q] }
  = ()

  (* what is known of the copy that is relocated next *)
  let ghost scan_at (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (vs v8: map int bool) (n free: int) : unit
    requires { world /\ storage vs v8 /\ inv ty car cdr m nd src n n free /\ free <= w_lim }
    ensures { 0 <= todo ty w_hi }
    ensures { nd[n] -> vs[n] /\ w_hi + 48 <= n /\ n + 24 <= free /\ n + 24 * sz src[n] <= free /\ (w_ob[src[n]] \/ w_el[src[n]]) /\ ty[n] = w_ty[src[n]] /\ 0 <= ty[n] < tBROKEN_HEART
      /\ car[n] = w_car[src[n]] /\ (carp ty[n] -> w_ob[car[n]]) /\ (cdrp ty[n] -> cdr[n] = w_cdr[src[n]] /\ w_ob[cdr[n]])
      /\ (ty[n] = tBYTES -> 0 <= car[n] <= 2147483647 /\ sz src[n] = bcells car[n]) /\ (ty[n] <> tBYTES -> sz src[n] = 1) }
  = rest_same ty ty w_hi;
    assert { nd[n] -> mod (n - w_lo) 24 = 0 };
    assert { nd[n] -> 1 <= sz src[n] }

  let ghost car_skip (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free /\ nd[cs] /\ cs < free /\ not carp w_ty[src[cs]] }
    ensures { inv ty car cdr m nd src (cs + 1) ds free }
  = assert { forall n [nd[n]]. nd[n] -> car_ok ty car cs n src[n] };
    assert { forall n [nd[n]]. nd[n] -> car_ok ty car (cs + 1) n src[n] };
    assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car cdr nd src ds n src[n] }
  let ghost cdr_skip (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free /\ nd[ds] /\ ds < free /\ not cdrp w_ty[src[ds]] }
    ensures { inv ty car cdr m nd src cs (ds + 1) free }
  = assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car cdr nd src ds n src[n] };
    assert { forall n [nd[n]]. nd[n] -> cdr_ok ty car cdr nd src (ds + 1) n src[n] }
  predicate within (nd: map int bool) (free: int) = forall n [nd[n]]. nd[n] -> w_hi + 48 <= n /\ n + 24 <= free
  let ghost nodes_in (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int) : unit
    requires { world /\ inv ty car cdr m nd src cs ds free }
    ensures { within nd free }
    ensures { 0 <= todo ty w_hi }
  = rest_same ty ty w_hi;
    assert { forall n [nd[n]]. nd[n] -> 1 <= sz src[n] };
    assert { forall n [nd[n]]. nd[n] -> w_hi + 48 <= n /\ n + 24 * sz src[n] <= free }

  (* the result of a collection *)
  function shift : int = w_hi + 24 - w_lo
  function to_ (fcar: map int int) (o: int) : int = fcar[o] - shift
  predicate cell_as (fty fcar ty car cdr: map int int) (n s: int) =
    ty[n] = w_ty[s]
    /\ (if carp w_ty[s] then done_ fty w_car[s] /\ car[n] = to_ fcar w_car[s] else car[n] = w_car[s])
    /\ (if cdrp w_ty[s] then done_ fty w_cdr[s] /\ cdr[n] = to_ fcar w_cdr[s] else vecp w_ty[s] \/ w_ty[s] = tBYTES \/ cdr[n] = w_cdr[s])
  predicate in_block (fcar cdr: map int int) (o e: int) =
    let b = cdr[to_ fcar o] in b <= e < b + 24 * w_car[o] /\ mod (e - b) 24 = 0
  predicate preserved (fty fcar ty car cdr m: map int int) (free: int) =
    forall o. done_ fty o -> let n = to_ fcar o in
      w_lo + 24 <= n /\ mod (n - w_lo) 24 = 0 /\ n + 24 * sz o <= free /\ cell_as fty fcar ty car cdr n o
      /\ (vecp w_ty[o] -> forall e. in_block fcar cdr o e -> w_lo + 24 <= e /\ e + 24 <= free /\ cell_as fty fcar ty car cdr e (w_cdr[o] + (e - cdr[n])))
      /\ (w_ty[o] = tBYTES -> payload m n o)
  (* no two live objects are merged or overlap *)
  predicate apart (fty fcar cdr: map int int) =
    (forall o p. done_ fty o -> done_ fty p -> o <> p -> to_ fcar o + 24 * sz o <= to_ fcar p \/ to_ fcar p + 24 * sz p <= to_ fcar o)
    /\ (forall o p e. done_ fty o -> done_ fty p -> vecp w_ty[p] -> in_block fcar cdr p e -> e + 24 <= to_ fcar o \/ to_ fcar o + 24 * sz o <= e)
    /\ (forall o p e. done_ fty o -> done_ fty p -> vecp w_ty[o] -> vecp w_ty[p] -> in_block fcar cdr o e -> in_block fcar cdr p e -> w_cdr[o] - cdr[to_ fcar o] = w_cdr[p] - cdr[to_ fcar p])

  let ghost to_row (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (free: int) : unit
    requires { world /\ inv ty car cdr m nd src free free free /\ ty[w_hi + 24] = tCHAR /\ free <= w_lim }
    ensures { row ty car cdr (set nd (w_hi + 24) true) (w_hi + 24) free shift }
  = assert { forall n [nd[n]]. nd[n] -> nsz ty car n = sz src[n] };
    assert { forall n [nd[n]]. nd[n] -> w_hi + 48 <= n < w_lim };
    assert { forall n [nd[n]]. nd[n] -> carp ty[n] -> nd[car[n]] };
    assert { forall n [nd[n]]. nd[n] -> cdrp ty[n] -> nd[cdr[n]] };
    assert { forall n [nd[n]]. nd[n] -> vecp ty[n] -> w_hi + 48 <= cdr[n] <= free };
    let ghost nd2 = set nd (w_hi + 24) true in
    assert { forall n [nd2[n]]. nd2[n] -> nd[n] \/ n = w_hi + 24 };
    assert { w_hi + 48 = free \/ nd[w_hi + 48] };
    assert { nsz ty car (w_hi + 24) = 1 };
    assert { shift <= w_hi + 24 };
    assert { forall n [nd[n]]. nd[n] -> n + 24 * nsz ty car n = free \/ nd2[n + 24 * nsz ty car n] };
    assert { forall n [nd[n]]. nd[n] -> ty[n] = tBYTES -> 0 <= car[n] <= 2147483647 };
    assert { forall n [nd[n]]. nd[n] -> mod (n - (w_hi + 24)) 24 = 0 };
    assert { forall n [nd[n]]. nd[n] -> carp ty[n] -> shift <= car[n] <= 100000000000000 };
    assert { forall n [nd[n]]. nd[n] -> cdrp ty[n] \/ vecp ty[n] -> shift <= cdr[n] <= 100000000000000 };
    assert { forall n [nd[n]]. nd[n] -> 0 <= ty[n] < tBROKEN_HEART /\ n + 24 * nsz ty car n <= free };
    assert { forall n k. nd[n] -> nd[k] -> n < k -> n + 24 * nsz ty car n <= k };
    assert { forall n k. nd2[n] -> nd2[k] -> n < k -> n + 24 * nsz ty car n <= k };
    assert { forall n [nd2[n]]. nd2[n] -> w_hi + 24 <= n /\ mod (n - (w_hi + 24)) 24 = 0 /\ 0 <= ty[n] < tBROKEN_HEART /\ n + 24 * nsz ty car n <= free };
    assert { forall n [nd2[n]]. nd2[n] -> n + 24 * nsz ty car n = free \/ nd2[n + 24 * nsz ty car n] };
    assert { forall n [nd2[n]]. nd2[n] -> (ty[n] = tBYTES -> 0 <= car[n] <= 2147483647) };
    assert { forall n [nd2[n]]. nd2[n] -> (carp ty[n] -> shift <= car[n] <= 100000000000000) /\ (cdrp ty[n] \/ vecp ty[n] -> shift <= cdr[n] <= 100000000000000) }

  let ghost element (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (free: int) (cdr2: map int int) (o e: int) : unit
    requires { world /\ inv ty car cdr m nd src free free free }
    requires { cdr2[to_ car o] = cdr[car[o]] - shift }
    requires { done_ ty o /\ vecp w_ty[o] /\ in_block car cdr2 o e }
    ensures { nd[e + shift] /\ src[e + shift] = w_cdr[o] + (e - cdr2[to_ car o]) /\ w_el[src[e + shift]] }
  = let ghost n = car[o] in let ghost k = e + shift in
    assert { nd[n] /\ src[n] = o };
    assert { cdr_ok ty car cdr nd src free n o };
    assert { k - cdr[n] = e - cdr2[to_ car o] };
    assert { cdr[n] <= k < cdr[n] + 24 * w_car[o] /\ mod (k - cdr[n]) 24 = 0 };
    assert { nd[k] /\ src[k] = w_cdr[o] + (k - cdr[n]) };
    el_of o src[k] (k - cdr[n])

  let ghost finish_preserved (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (free: int) (ty2 car2 cdr2 m2: map int int) : unit
    requires { world /\ inv ty car cdr m nd src free free free }
    requires { forall o. done_ ty o -> nd[car[o]] /\ src[car[o]] = o }
    requires { forall n [nd[n]]. nd[n] -> cell_as ty car ty2 car2 cdr2 (n - shift) src[n] }
    requires { forall n [nd[n]]. nd[n] -> w_ty[src[n]] = tBYTES -> payload m2 (n - shift) src[n] }
    requires { forall n [nd[n]]. nd[n] -> w_lo + 24 <= n - shift /\ n + 24 <= free /\ n + 24 * sz src[n] <= free /\ mod (n - shift - w_lo) 24 = 0 }
    requires { forall o. done_ ty o -> vecp w_ty[o] -> cdr2[to_ car o] = cdr[car[o]] - shift }
    ensures { preserved ty car ty2 car2 cdr2 m2 (free - shift) }
  = let lemma al (o: int) : unit
      requires { done_ ty o }
      ensures { let n = to_ car o in w_lo + 24 <= n /\ mod (n - w_lo) 24 = 0 /\ n + 24 * sz o <= free - shift /\ cell_as ty car ty2 car2 cdr2 n o /\ (w_ty[o] = tBYTES -> payload m2 n o) }
    = let ghost n = car[o] in
      assert { nd[n] /\ src[n] = o };
      assert { cell_as ty car ty2 car2 cdr2 (n - shift) src[n] };
      assert { w_lo + 24 <= n - shift /\ n + 24 * sz src[n] <= free /\ mod (n - shift - w_lo) 24 = 0 };
      assert { w_ty[src[n]] = tBYTES -> payload m2 (n - shift) src[n] };
      assert { to_ car o = n - shift } in
    let lemma el (o e: int) : unit
      requires { done_ ty o /\ vecp w_ty[o] /\ in_block car cdr2 o e }
      ensures { w_lo + 24 <= e /\ e + 24 <= free - shift /\ cell_as ty car ty2 car2 cdr2 e (w_cdr[o] + (e - cdr2[to_ car o])) }
    = element ty car cdr m nd src free cdr2 o e;
      let ghost k = e + shift in
      assert { nd[k] /\ src[k] = w_cdr[o] + (e - cdr2[to_ car o]) };
      assert { cell_as ty car ty2 car2 cdr2 (k - shift) src[k] };
      assert { w_lo + 24 <= k - shift /\ k + 24 <= free };
      assert { k - shift = e } in
    ()

  let ghost finish_apart (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (free: int) (cdr2: map int int) : unit
    requires { world /\ inv ty car cdr m nd src free free free }
    requires { forall o. done_ ty o -> nd[car[o]] /\ src[car[o]] = o }
    requires { forall o. done_ ty o -> vecp w_ty[o] -> cdr2[to_ car o] = cdr[car[o]] - shift }
    ensures { apart ty car cdr2 }
  = let lemma two (o p: int) : unit
      requires { done_ ty o /\ done_ ty p /\ o <> p }
      ensures { to_ car o + 24 * sz o <= to_ car p \/ to_ car p + 24 * sz p <= to_ car o }
    = assert { nd[car[o]] /\ src[car[o]] = o };
      assert { nd[car[p]] /\ src[car[p]] = p };
      assert { car[o] < car[p] \/ car[p] < car[o] } in
    let lemma one (o p e: int) : unit
      requires { done_ ty o /\ done_ ty p /\ vecp w_ty[p] /\ in_block car cdr2 p e }
      ensures { e + 24 <= to_ car o \/ to_ car o + 24 * sz o <= e }
    = element ty car cdr m nd src free cdr2 p e;
      let ghost k = e + shift in
      assert { nd[k] /\ w_el[src[k]] };
      assert { not w_ob[src[k]] /\ w_ty[src[k]] <> tBYTES };
      assert { sz src[k] = 1 };
      assert { nd[car[o]] /\ src[car[o]] = o };
      assert { k < car[o] \/ car[o] < k } in
    let lemma three (o p e: int) : unit
      requires { done_ ty o /\ done_ ty p /\ vecp w_ty[o] /\ vecp w_ty[p] /\ in_block car cdr2 o e /\ in_block car cdr2 p e }
      ensures { w_cdr[o] - cdr2[to_ car o] = w_cdr[p] - cdr2[to_ car p] }
    = element ty car cdr m nd src free cdr2 o e;
      element ty car cdr m nd src free cdr2 p e;
      let ghost k = e + shift in
      assert { src[k] = w_cdr[o] + (e - cdr2[to_ car o]) };
      assert { src[k] = w_cdr[p] + (e - cdr2[to_ car p]) } in
    ()

  let ghost finish (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (free: int) (ty2 car2 cdr2 m2: map int int) : unit
    requires { world /\ inv ty car cdr m nd src free free free }
    requires { forall n. nd[n] -> moved ty car cdr m ty2 car2 cdr2 m2 shift n }
    ensures { preserved ty car ty2 car2 cdr2 m2 (free - shift) }
    ensures { apart ty car cdr2 }
  = assert { forall n [nd[n]]. nd[n] -> cell_as ty car ty2 car2 cdr2 (n - shift) src[n] };
    assert { forall n [nd[n]]. nd[n] -> w_ty[src[n]] = tBYTES -> payload m2 (n - shift) src[n] };
    assert { forall n [nd[n]]. nd[n] -> w_lo + 24 <= n - shift /\ n + 24 <= free /\ n + 24 * sz src[n] <= free };
    assert { mod (shift + w_lo - w_hi) 24 = 0 };
    assert { forall n [nd[n]]. nd[n] -> mod (n - shift - w_lo) 24 = 0 };
    assert { forall o. done_ ty o -> nd[car[o]] /\ src[car[o]] = o };
    assert { forall o. done_ ty o -> vecp w_ty[o] -> cdr2[to_ car o] = cdr[car[o]] - shift };
    finish_preserved ty car cdr m nd src free ty2 car2 cdr2 m2;
    finish_apart ty car cdr m nd src free cdr2

  (* before anything is copied *)
  function no_node : map int bool = fun _ -> false
  predicate snapshot (ty car cdr m: map int int) = forall a. a < w_hi -> ty[a] = w_ty[a] /\ car[a] = w_car[a] /\ cdr[a] = w_cdr[a] /\ m[a] = w_m8[a]
  let ghost nothing_copied (ty car cdr m: map int int) (src: map int int) : unit
    requires { world /\ snapshot ty car cdr m }
    ensures { inv ty car cdr m no_node src (w_hi + 48) (w_hi + 48) (w_hi + 48) /\ todo ty w_hi = todo w_ty w_hi }
    ensures { forall o. not done_ ty o }
  = rest_same w_ty ty w_hi;
    assert { mod (w_hi + 48 - w_hi) 24 = 0 };
    assert { forall n. not no_node[n] };
    assert { forall o. w_ob[o] -> o < w_hi /\ ty[o] = w_ty[o] };
    assert { forall o. not done_ ty o }
  predicate forwarded (ty car: map int int) (o n: int) = done_ ty o /\ car[o] = n
  let ghost forwarded_nodes (ty car cdr m: map int int) (nd: map int bool) (src: map int int) (cs ds free: int) : unit
    requires { inv ty car cdr m nd src cs ds free }
    ensures { forall o n [forwarded ty car o n]. forwarded ty car o n -> nd[n] }
    ensures { forall o. done_ ty o -> nd[car[o]] }
  = assert { forall o. done_ ty o -> nd[car[o]] }
  predicate special (nil max s: int) = nil <= s < max /\ mod (s - nil) 24 = 0
  let ghost five (p i: int) : unit
    ensures { forall a. p + 8 * i <= a < p + 8 * (i + 5) -> mod (a - p) 8 = 0 -> a = p + 8 * i \/ a = p + 8 * (i + 1) \/ a = p + 8 * (i + 2) \/ a = p + 8 * (i + 3) \/ a = p + 8 * (i + 4) }
    ensures { forall k. mod (p + 8 * k - p) 8 = 0 }
  = assert { forall a. a - p = 8 * div (a - p) 8 + mod (a - p) 8 };
    assert { forall k. p + 8 * k - p = 8 * k + 0 }
end
