(* The interpreter: cells, arena, lists. *)
module Scm
  use mem.Mem
  use mem.Str
  exception Stop    (* an error is reported (src/core.c error) or an assertion stops the program *)
  exception Full    (* the arena is exhausted; assert_msg stops the program *)
  val ref g_cells : int
  val ref g_free : int
  val ref g_ARENA_SIZE : int
  val ref cell_nil : int
  val ref cell_t : int
  val ref cell_f : int
  val ref cell_unspecified : int
  val ref cell_undefined : int

  constant tCHAR : int = 0
  constant tBYTES : int = 1
  constant tCLOSURE : int = 2
  constant tCONTINUATION : int = 3
  constant tKEYWORD : int = 4
  constant tMACRO : int = 5
  constant tNUMBER : int = 6
  constant tPAIR : int = 7
  constant tPORT : int = 8
  constant tREF : int = 9
  constant tSPECIAL : int = 10
  constant tSTRING : int = 11
  constant tSTRUCT : int = 12
  constant tSYMBOL : int = 13
  constant tVALUES : int = 14
  constant tVARIABLE : int = 15
  constant tVECTOR : int = 16
  constant tBROKEN_HEART : int = 17

  (* the cells from g_cells up to the limit are storage *)
  predicate arena_cells (vs: map int bool) (lo hi: int)
  axiom arena_cells_def: forall vs lo hi. arena_cells vs lo hi <-> (forall a. lo <= a < hi -> mod (a - lo) 24 = 0 -> vs[a])
  axiom arena_cells_use: forall vs lo hi a [arena_cells vs lo hi, vs[a]]. arena_cells vs lo hi -> lo <= a < hi -> mod (a - lo) 24 = 0 -> vs[a]
  predicate arena (vs v8: map int bool) (cells free size: int) =
    0 < cells <= free <= cells + 24 * size /\ 0 <= size <= 1000000000000 /\ cells <= 100000000000000
    /\ mod (free - cells) 24 = 0
    /\ arena_cells vs cells (cells + 24 * size)
    /\ forall a. cells <= a < cells + 24 * size -> v8[a]
  (* x is an existing object's cell *)
  predicate obj (x cells free: int) = cells <= x < free /\ mod (x - cells) 24 = 0
  (* nothing outside [lo, hi) changed *)
  predicate kept (m n: map int int) (lo hi: int)
  axiom kept_def: forall m n lo hi. kept m n lo hi <-> (forall a. a < lo \/ a >= hi -> n[a] = m[a])
  axiom kept_use: forall m n lo hi a [kept m n lo hi, n[a]]. kept m n lo hi -> a < lo \/ a >= hi -> n[a] = m[a]
  function bcells (l: int) : int = div (l + 23) 8
end

module Vec
  use mem.Mem
  use Scm
  predicate imm (t: int) = t = tCHAR \/ t = tNUMBER
  (* the slot at a holds the value e: numbers and characters by value, everything else by reference *)
  predicate slot (ty car cdr: map int int) (a e: int) =
    if imm ty[e] then ty[a] = ty[e] /\ car[a] = car[e] /\ cdr[a] = cdr[e] else ty[a] = tREF /\ car[a] = e
  (* character codes are ints *)
  predicate chr (ty cdr: map int int) (a: int) = ty[a] = tCHAR -> in_s32 cdr[a]
  (* r is what reading the slot at a gives: a fresh number or character equal to the stored one, or the stored object *)
  predicate reads_ (ty car cdr ty0 car0 cdr0: map int int) (a r old_free: int) =
    let e = if ty0[a] = tREF then car0[a] else a in
    if imm ty0[e] then r >= old_free /\ ty[r] = ty0[e] /\ cdr[r] = cdr0[e] else r = e
end

module List
  use mem.Mem
  use Scm
  (* the k-th tail of x *)
  function nth (cdr: map int int) (x k: int) : int
  axiom nth_0: forall cdr x. nth cdr x 0 = x
  axiom nth_1: forall cdr x. nth cdr x 1 = cdr[x]
  val ghost nth_step (cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { nth cdr x (k+1) = cdr[nth cdr x k] }   (* definition *)
  (* x is a proper list of n pairs *)
  predicate lst (ty cdr: map int int) (nil cells free x n: int)
  axiom lst_def: forall ty cdr nil cells free x n. lst ty cdr nil cells free x n <->
    (0 <= n /\ nth cdr x n = nil /\ (forall k. 0 <= k < n -> nth cdr x k <> nil /\ ty[nth cdr x k] = tPAIR /\ obj (nth cdr x k) cells free))
  let rec ghost nth_tail (cdr: map int int) (x k: int) : unit
    requires { 0 <= k } ensures { nth cdr cdr[x] k = nth cdr x (k+1) } variant { k }
  = nth_step cdr x k; if k > 0 then (nth_tail cdr x (k-1); nth_step cdr cdr[x] (k-1))
  (* a list lies in memory that did not change *)
  let rec ghost nth_same (c d: map int int) (x k: int) : unit
    requires { 0 <= k } requires { forall j. 0 <= j < k -> d[nth c x j] = c[nth c x j] }
    ensures { forall j. 0 <= j <= k -> nth d x j = nth c x j } variant { k }
  = if k > 0 then (nth_same c d x (k-1); nth_step c x (k-1); nth_step d x (k-1))
  (* the first n tails of x are pairs *)
  predicate chain (ty cdr: map int int) (nil cells free x n: int)
  axiom chain_def: forall ty cdr nil cells free x n. chain ty cdr nil cells free x n <->
    (0 <= n /\ (forall k. 0 <= k < n -> nth cdr x k <> nil /\ ty[nth cdr x k] = tPAIR /\ obj (nth cdr x k) cells free))
  (* reaching the same cell twice: the tails from there agree *)
  let rec ghost nth_meet (cdr: map int int) (x i y j m: int) : unit
    requires { 0 <= i /\ 0 <= j /\ 0 <= m } requires { nth cdr x i = nth cdr y j }
    ensures { nth cdr x (i+m) = nth cdr y (j+m) } variant { m }
  = if m > 0 then (nth_meet cdr x i y j (m-1); nth_step cdr x (i+m-1); nth_step cdr y (j+m-1))
  (* the cells of a proper list are distinct *)
  let ghost nth_distinct (cdr: map int int) (nil x n i: int) : unit
    requires { 0 <= i < n } requires { nth cdr x n = nil } requires { forall k. 0 <= k < n -> nth cdr x k <> nil }
    ensures { forall j. 0 <= j <= n -> j <> i -> nth cdr x j <> nth cdr x i }
  = for j = 0 to n do invariant { forall k. 0 <= k < j -> k <> i -> nth cdr x k <> nth cdr x i }
      if j < i && pure { nth cdr x j = nth cdr x i } then nth_meet cdr x j x i (n - i);
      if j > i && pure { nth cdr x j = nth cdr x i } then nth_meet cdr x i x j (n - j)
    done
  (* p is put in front of the list r *)
  let rec ghost nth_push (c d: map int int) (r p n: int) : unit
    requires { 0 <= n } requires { d[p] = r } requires { forall j. 0 <= j < n -> d[nth c r j] = c[nth c r j] }
    ensures { forall k. 1 <= k <= n+1 -> nth d p k = nth c r (k-1) } variant { n }
  = nth_same c d r n; nth_tail d p n; if n > 0 then nth_push c d r p (n-1)
end

module Strg
  use mem.Mem
  use mem.Str
  use Scm
  (* x is a well-formed string, keyword or symbol: a length and a bytes object of that length and a terminator *)
  predicate wstr (car cdr: map int int) (v8: map int bool) (x: int) =
    0 <= car[x] <= 100000000000 /\ 0 < cdr[x] /\ car[cdr[x]] = car[x] + 1 /\ range v8 (cdr[x] + 16) (car[x] + 1)
  predicate str_eq (car cdr m: map int int) (x y: int)
  axiom str_eq_def: forall car cdr m x y [str_eq car cdr m x y]. str_eq car cdr m x y <->
    (car[x] = car[y] /\ forall a. cdr[x] + 16 <= a < cdr[x] + 16 + car[x] -> m[a] = m[cdr[y] + 16 + (a - (cdr[x] + 16))])
  (* y is a string with the contents of x *)
  predicate same_string (ty car cdr m: map int int) (x y: int) = ty[y] = tSTRING /\ str_eq car cdr m x y
  (* eq? *)
  predicate eqp (ty car cdr m: map int int) (x y: int) =
    x = y \/ (ty[x] = ty[y] /\ (if ty[x] = tKEYWORD then str_eq car cdr m x y else (ty[x] = tCHAR \/ ty[x] = tNUMBER) /\ cdr[x] = cdr[y]))
end

(* Input ports: string ports hold the text still to be read; descriptors deliver a stream of bytes, with push-back (property L11). *)
module Port
  use mem.Mem
  use mem.Str
  use Scm
  use List
  use Strg
  val ref g_ports : int
  val ref u__stdin : int
  function port_of (car cdr: map int int) (ports k: int) : int = car[nth cdr ports k]
  (* the k-th port is the first with this number *)
  predicate names (car cdr: map int int) (ports k number: int) =
    car[port_of car cdr ports k] = number /\ forall j. 0 <= j < k -> car[port_of car cdr ports j] <> number
  predicate string_port (ty car cdr: map int int) (v8: map int bool) (cells free: int) (vs: map int bool) (p: int) =
    obj p cells free /\ vs[p] /\ ty[p] = tPORT /\ obj cdr[p] cells free /\ vs[cdr[p]] /\ ty[cdr[p]] = tSTRING /\ wstr car cdr v8 cdr[p]
    /\ vs[cdr[cdr[p]]] /\ obj cdr[cdr[p]] cells free /\ cdr[cdr[p]] + 16 + car[cdr[p]] + 1 <= free
  (* the text a string port has left *)
  function tlen (car cdr: map int int) (p: int) : int = car[cdr[p]]
  function text (cdr m: map int int) (p i: int) : int
  axiom text_def: forall cdr m p i [text cdr m p i]. text cdr m p i = mod m[cdr[cdr[p]] + 16 + i] 256
  (* all but the first character is left *)
  predicate rest (car cdr m car2 cdr2 m2: map int int) (p: int)
  axiom rest_def: forall car cdr m car2 cdr2 m2 p. rest car cdr m car2 cdr2 m2 p <->
    (tlen car2 cdr2 p = tlen car cdr p - 1 /\ forall i. 0 <= i < tlen car2 cdr2 p -> text cdr2 m2 p i = text cdr m p (i+1))

  let ghost rest_kept (vs v8: map int bool) (ty car cdr m car1 cdr1 m1 car2 cdr2 m2: map int int) (cells free p: int) : unit
    requires { rest car cdr m car1 cdr1 m1 p } requires { string_port ty car1 cdr1 v8 cells free vs p }
    requires { forall a. a < free -> car2[a] = car1[a] /\ cdr2[a] = cdr1[a] } requires { m2 = m1 }
    ensures { rest car cdr m car2 cdr2 m2 p }
  = assert { cdr2[p] = cdr1[p] /\ car2[cdr2[p]] = car1[cdr1[p]] /\ cdr2[cdr2[p]] = cdr1[cdr1[p]] };
    assert { forall i. text cdr2 m2 p i = text cdr1 m1 p i }
  (* the first i characters have been read *)
  predicate left (car0 cdr0 m0 car cdr m: map int int) (p i: int)
  axiom left_def: forall car0 cdr0 m0 car cdr m p i. left car0 cdr0 m0 car cdr m p i <->
    (tlen car cdr p = tlen car0 cdr0 p - i /\ forall j [text cdr m p j]. 0 <= j < tlen car cdr p -> text cdr m p j = text cdr0 m0 p (i + j))
  let ghost left_0 (car cdr m car1 cdr1 m1: map int int) (p: int) : unit
    requires { car1[cdr[p]] = car[cdr[p]] } requires { cdr1 = cdr } requires { forall i. text cdr m1 p i = text cdr m p i }
    ensures { left car cdr m car1 cdr1 m1 p 0 } = ()
  let ghost left_rest (car0 cdr0 m0 car cdr m car1 cdr1 m1: map int int) (p i: int) : unit
    requires { left car0 cdr0 m0 car cdr m p i } requires { rest car cdr m car1 cdr1 m1 p }
    ensures { left car0 cdr0 m0 car1 cdr1 m1 p (i+1) }
  = assert { forall j. 0 <= j < tlen car1 cdr1 p -> text cdr1 m1 p j = text cdr m p (j+1) /\ text cdr m p (j+1) = text cdr0 m0 p (i + (j+1)) }
  let ghost left_same (vs v8: map int bool) (ty car0 cdr0 m0 car cdr m m1: map int int) (cells free p i: int) : unit
    requires { left car0 cdr0 m0 car cdr m p i } requires { string_port ty car cdr v8 cells free vs p }
    requires { forall a. cells <= a < free -> m1[a] = m[a] }
    ensures { left car0 cdr0 m0 car cdr m1 p i }
  = assert { forall j. 0 <= j < tlen car cdr p -> text cdr m1 p j = text cdr m p j }
  let ghost copied (m0 m cdr mm: map int int) (p b q n: int) : unit
    requires { forall a. q <= a < q + n -> m[a] = m0[b + (a - q)] }
    requires { forall j [text cdr mm p j]. 0 <= j < n -> mod m0[b + j] 256 = text cdr mm p j }
    ensures { forall j [text cdr mm p j]. 0 <= j < n -> mod m[q + j] 256 = text cdr mm p j }
  = for i = 0 to n - 1 do invariant { forall j [text cdr mm p j]. 0 <= j < i -> mod m[q + j] 256 = text cdr mm p j } 
      assert { m[q + i] = m0[b + (q + i - q)] }; assert { text cdr mm p i = text cdr mm p i }; assert { mod m0[b + i] 256 = text cdr mm p i } done
  (* the list of ports when only the port p changes *)
  let ghost ports_kept (ty car cdr ty2 car2 cdr2: map int int) (nil cells free free2 ports n p: int) : unit
    requires { lst ty cdr nil cells free ports n } requires { free <= free2 }
    requires { forall a. a < free -> ty2[a] = ty[a] /\ car2[a] = car[a] /\ (cdr2[a] = cdr[a] \/ (a = p /\ ty[p] <> tPAIR)) }
    ensures { lst ty2 cdr2 nil cells free2 ports n }
    ensures { forall k. 0 <= k <= n -> nth cdr2 ports k = nth cdr ports k }
    ensures { forall k. 0 <= k < n -> port_of car2 cdr2 ports k = port_of car cdr ports k }
  = assert { forall k. 0 <= k < n -> obj (nth cdr ports k) cells free };
    assert { forall k. 0 <= k < n -> cdr2[nth cdr ports k] = cdr[nth cdr ports k] };
    nth_same cdr cdr2 ports n;
    assert { forall k. 0 <= k <= n -> nth cdr2 ports k = nth cdr ports k };
    assert { forall k. 0 <= k < n -> nth cdr2 ports k <> nil /\ ty2[nth cdr2 ports k] = tPAIR /\ obj (nth cdr2 ports k) cells free2 }
  (* the number of the port read by (read-char . args) *)
  function chosen (ty car cdr: map int int) (stdin args: int) : int =
    if ty[args] <> tPAIR then stdin else if ty[car[args]] = tNUMBER then cdr[car[args]] else if ty[car[args]] = tPORT then car[car[args]] else stdin
  (* n ports, the last opened first *)
  predicate numbered (car cdr: map int int) (ports n: int)
  axiom numbered_def: forall car cdr ports n. numbered car cdr ports n <-> forall j. 0 <= j < n -> car[port_of car cdr ports j] = j - n - 1
  (* what is left to be read from a descriptor *)
  val ref d_pos : map int int
  val ref d_push : map int int
  function d_byte (fd i: int) : int
  axiom d_byte_range: forall fd i. 0 <= d_byte fd i <= 255
  function dtext (pos push: map int int) (fd i: int) : int
  axiom dtext_def: forall pos push fd i [dtext pos push fd i]. dtext pos push fd i =
    if 0 <= push[fd] then (if i = 0 then push[fd] else d_byte fd (pos[fd] + i - 1)) else d_byte fd (pos[fd] + i)
  predicate d_others (pos push pos2 push2: map int int) (fd: int) = forall f. f <> fd -> pos2[f] = pos[f] /\ push2[f] = push[f]
  predicate d_read (pos push pos2 push2: map int int) (fd r: int) =
    -1 <= r <= 255 /\ d_others pos push pos2 push2 fd /\ push2[fd] = -1
    /\ if r < 0 then push[fd] < 0 /\ pos2[fd] = pos[fd] else r = dtext pos push fd 0 /\ forall i [dtext pos push fd i]. 1 <= i -> dtext pos push fd i = dtext pos2 push2 fd (i-1)
  predicate d_unread (pos push push2: map int int) (fd c: int) =
    d_others pos push pos push2 fd
    /\ if c < 0 then push2 = push else dtext pos push2 fd 0 = c /\ forall i [dtext pos push2 fd i]. 1 <= i -> dtext pos push2 fd i = dtext pos push fd (i-1)
  predicate d_peek (pos push pos2 push2: map int int) (fd r: int) =
    -1 <= r <= 255 /\ d_others pos push pos2 push2 fd
    /\ (forall i. 0 <= i -> dtext pos2 push2 fd i = dtext pos push fd i) /\ (0 <= r -> r = dtext pos push fd 0)
  predicate d_left (pos0 push0 pos push: map int int) (fd i: int)
  axiom d_left_def: forall pos0 push0 pos push fd i. d_left pos0 push0 pos push fd i <->
    (d_others pos0 push0 pos push fd /\ forall j [dtext pos push fd j]. 0 <= j -> dtext pos push fd j = dtext pos0 push0 fd (i + j))
  let ghost d_left_0 (pos push: map int int) (fd: int) : unit ensures { d_left pos push pos push fd 0 } = ()
  let ghost d_left_read (pos0 push0 pos push pos1 push1: map int int) (fd i r: int) : unit
    requires { d_left pos0 push0 pos push fd i } requires { d_read pos push pos1 push1 fd r } requires { 0 <= i }
    ensures { d_left pos0 push0 pos1 push1 fd (if r < 0 then i else i + 1) }
    ensures { 0 <= r -> r = dtext pos0 push0 fd i }
  = assert { forall f. f <> fd -> pos1[f] = pos0[f] /\ push1[f] = push0[f] };
    if r < 0 then assert { forall j. 0 <= j -> dtext pos1 push1 fd j = dtext pos push fd j }
    else (assert { dtext pos push fd 0 = dtext pos0 push0 fd (i + 0) };
      assert { forall j. 0 <= j -> dtext pos push fd (j+1) = dtext pos1 push1 fd (j+1-1) };
      assert { forall j. 0 <= j -> dtext pos1 push1 fd j = dtext pos push fd (j+1) /\ dtext pos push fd (j+1) = dtext pos0 push0 fd (i + (j+1)) })
  let ghost d_peeked (p q p1 q1 q2: map int int) (fd r: int) : unit
    requires { d_read p q p1 q1 fd r } requires { d_unread p1 q1 q2 fd r } ensures { d_peek p q p1 q2 fd r }
  = if r >= 0 then assert { forall i. 1 <= i -> dtext p1 q2 fd i = dtext p q fd i };
    assert { forall f. f <> fd -> p1[f] = p[f] /\ q2[f] = q[f] }
end

module Cat
  use mem.Mem
  use mem.Str
  use Scm
  use List
  (* the total length of the first k strings of a list *)
  function tot (car cdr: map int int) (x k: int) : int
  axiom tot_0: forall car cdr x. tot car cdr x 0 = 0
  val ghost tot_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { tot car cdr x (k+1) = tot car cdr x k + car[car[nth cdr x k]] }   (* definition *)
  (* the l bytes from p hold the strings number 0 .. k-1 of the list x, in order *)
  predicate catted (car cdr m0 m: map int int) (x k p: int)
  axiom catted_def: forall car cdr m0 m x k p [catted car cdr m0 m x k p]. catted car cdr m0 m x k p <->
    forall j a. 0 <= j < k -> p + tot car cdr x j <= a < p + tot car cdr x j + car[car[nth cdr x j]] -> m[a] = m0[cdr[car[nth cdr x j]] + 16 + (a - (p + tot car cdr x j))]
  let ghost catted_push (car cdr m0 m1 m2: map int int) (x k p: int) : unit
    requires { 0 <= k } requires { catted car cdr m0 m1 x k p }
    requires { forall j. 0 <= j < k -> 0 <= tot car cdr x j /\ tot car cdr x j + car[car[nth cdr x j]] <= tot car cdr x k }
    requires { forall a. p <= a < p + tot car cdr x k -> m2[a] = m1[a] }
    requires { forall a. p + tot car cdr x k <= a < p + tot car cdr x k + car[car[nth cdr x k]] -> m2[a] = m0[cdr[car[nth cdr x k]] + 16 + (a - (p + tot car cdr x k))] }
    ensures { catted car cdr m0 m2 x (k+1) p } = ()
  let ghost catted_shift (car cdr m0 m1 m2: map int int) (x k p q: int) : unit
    requires { 0 <= k } requires { catted car cdr m0 m1 x k p }
    requires { forall j. 0 <= j < k -> 0 <= tot car cdr x j /\ tot car cdr x j + car[car[nth cdr x j]] <= tot car cdr x k }
    requires { forall a. q <= a < q + tot car cdr x k -> m2[a] = m1[p + (a - q)] }
    ensures { catted car cdr m0 m2 x k q }
  = assert { forall j a. 0 <= j < k -> q + tot car cdr x j <= a < q + tot car cdr x j + car[car[nth cdr x j]] -> m2[a] = m1[p + (a - q)] /\ m1[p + (a - q)] = m0[cdr[car[nth cdr x j]] + 16 + (p + (a - q) - (p + tot car cdr x j))] }
end

module Equal
  use mem.Mem
  use mem.Str
  use Scm
  use Strg
  (* what a slot of a vector holds *)
  function held (ty car: map int int) (a: int) : int = if ty[a] = tREF then car[a] else a
  (* equal?: the fixpoint of its defining equation *)
  predicate equalp (ty car cdr m: map int int) (x y: int)
  axiom equalp_def: forall ty car cdr m x y [equalp ty car cdr m x y]. equalp ty car cdr m x y <-> (
    x = y \/
    if ty[x] = tPAIR && ty[y] = tPAIR then equalp ty car cdr m car[x] car[y] /\ equalp ty car cdr m cdr[x] cdr[y]
    else if ty[x] = tSTRING && ty[y] = tSTRING then str_eq car cdr m x y
    else if ty[x] = tVECTOR && ty[y] = tVECTOR then car[x] = car[y] /\ forall i. 0 <= i < car[x] -> equalp ty car cdr m (held ty car (cdr[x] + 24 * i)) (held ty car (cdr[y] + 24 * i))
    else eqp ty car cdr m x y)
  (* g is a set of well-formed values closed under their parts; rank decreases from a value to its parts (finite values) *)
  predicate values_ (vs v8: map int bool) (ty car cdr: map int int) (g: map int bool) (rank: map int int)
  axiom values_def: forall vs v8 ty car cdr g rank. values_ vs v8 ty car cdr g rank <-> forall x [g[x]]. g[x] ->
    vs[x] /\ 0 <= ty[x] <= 17 /\ 0 <= rank[x]
    /\ (ty[x] = tPAIR -> g[car[x]] /\ g[cdr[x]] /\ rank[car[x]] < rank[x] /\ rank[cdr[x]] < rank[x])
    /\ (ty[x] = tSTRING \/ ty[x] = tKEYWORD -> wstr car cdr v8 x)
    /\ (ty[x] = tVECTOR -> 0 <= car[x] <= 1000000000000000 /\ forall i. 0 <= i < car[x] -> vs[cdr[x] + 24 * i] /\ g[held ty car (cdr[x] + 24 * i)] /\ rank[held ty car (cdr[x] + 24 * i)] < rank[x])
end

module Arith
  use mem.Mem
  use int.ComputerDivision as CD
  use Scm
  use List
  (* folds over the values of the first k elements of a list of numbers *)
  function elt (car cdr: map int int) (x k: int) : int = cdr[car[nth cdr x k]]
  function sum (car cdr: map int int) (x k: int) : int
  axiom sum_0: forall car cdr x. sum car cdr x 0 = 0
  val ghost sum_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { sum car cdr x (k+1) = sum car cdr x k + elt car cdr x k }   (* definition *)
  function prod (car cdr: map int int) (x k: int) : int
  axiom prod_0: forall car cdr x. prod car cdr x 0 = 1
  val ghost prod_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { prod car cdr x (k+1) = prod car cdr x k * elt car cdr x k }   (* definition *)
  (* the first element divided by the others in turn, truncating toward zero *)
  function quot (car cdr: map int int) (x k: int) : int
  axiom quot_0: forall car cdr x. quot car cdr x 0 = 1
  axiom quot_1: forall car cdr x. quot car cdr x 1 = elt car cdr x 0
  val ghost quot_step (car cdr: map int int) (x k: int) : unit requires { 1 <= k } ensures { quot car cdr x (k+1) = CD.div (quot car cdr x k) (elt car cdr x k) }   (* definition *)
  function fand (car cdr: map int int) (x k: int) : int
  axiom fand_0: forall car cdr x. fand car cdr x 0 = -1
  val ghost fand_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { fand car cdr x (k+1) = bw_and_s64 (fand car cdr x k) (elt car cdr x k) }   (* definition *)
  function for_ (car cdr: map int int) (x k: int) : int
  axiom for_0: forall car cdr x. for_ car cdr x 0 = 0
  val ghost for_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { for_ car cdr x (k+1) = bw_or_s64 (for_ car cdr x k) (elt car cdr x k) }   (* definition *)
  function fxor (car cdr: map int int) (x k: int) : int
  axiom fxor_0: forall car cdr x. fxor car cdr x 0 = 0
  val ghost fxor_step (car cdr: map int int) (x k: int) : unit requires { 0 <= k } ensures { fxor car cdr x (k+1) = bw_xor_s64 (fxor car cdr x k) (elt car cdr x k) }   (* definition *)
  (* how many words a wrapped value is off *)
  function turns (x: int) : int = div (x + 9223372036854775808) 18446744073709551616
  let ghost wrap_turns (x: int) : unit ensures { cast_s64 x = x - 18446744073709551616 * turns x } = ()
  let ghost no_turn (x s q: int) : unit requires { in_s64 x /\ in_s64 s /\ x = s - 18446744073709551616 * q } ensures { x = s } = ()
  let ghost mul_off (n p q v: int) : unit requires { n = p - 18446744073709551616 * q } ensures { n * v = p * v - 18446744073709551616 * (q * v) } = ()
  (* truncating division by magnitudes *)
  let ghost cdiv_abs (a b: int) : unit
    requires { b <> 0 }
    ensures { CD.div a b = if (a < 0) = (b < 0) then div (abs a) (abs b) else - div (abs a) (abs b) }
  = let q = pure { CD.div a b } in let r = pure { CD.mod a b } in
    let e = pure { div (abs a) (abs b) } in let f = pure { mod (abs a) (abs b) } in
    assert { a = b * q + r /\ abs r < abs b };
    assert { abs a = abs b * e + f /\ 0 <= f < abs b };
    assert { a >= 0 -> r >= 0 }; assert { a <= 0 -> r <= 0 };
    let s = pure { if b < 0 then - q else q } in
    assert { b * q = abs b * s };
    let t = pure { if a < 0 then - s else s } in
    assert { a >= 0 -> abs a = abs b * t + abs r };
    assert { a < 0 -> abs a = abs b * t + abs r };
    assert { abs b * (e - t) = abs r - f };
    assert { e - t >= 1 -> abs b * (e - t) >= abs b };
    assert { e - t <= -1 -> abs b * (e - t) <= - abs b };
    assert { e = t }
  let ghost mod_zero (x y q: int) : unit requires { y <> 0 /\ x = y * q } ensures { mod x y = 0 }
  = let m = pure { mod x y } in let d = pure { div x y } in
    assert { x = y * d + m /\ 0 <= m < abs y };
    assert { y * (q - d) = m };
    assert { abs y * abs (q - d) = m };
    assert { abs (q - d) >= 1 -> abs y * abs (q - d) >= abs y };
    assert { q = d }
  (* the number congruent to a with the sign of b, by magnitudes *)
  function modulo_of (a b: int) : int =
    let m = mod (abs a) (abs b) in
    let r = if m = 0 then 0 else if (a < 0) = (b < 0) then m else abs b - m in
    if b < 0 then - r else r
  let ghost modulo_congruent (a b: int) : unit requires { b <> 0 } ensures { mod (a - modulo_of a b) b = 0 }
  = let m = pure { mod (abs a) (abs b) } in let e = pure { div (abs a) (abs b) } in
    assert { abs a = abs b * e + m /\ 0 <= m < abs b };
    if pure { (a < 0) <> (b < 0) } then begin
      if pure { m = 0 } then begin
        assert { a - modulo_of a b = b * (- e) };
        mod_zero (pure { a - modulo_of a b }) b (- e) end
      else begin
        assert { a - modulo_of a b = b * (- e - 1) };
        mod_zero (pure { a - modulo_of a b }) b (- e - 1) end end
    else begin
      assert { a - modulo_of a b = b * e };
      mod_zero (pure { a - modulo_of a b }) b e end
  (* shifts by a word and more *)
  let ghost pow2_at (n: int) : unit requires { 0 <= n } ensures { pow2 (n+1) = 2 * pow2 n } = ()
  let rec ghost pow2_mono (n m: int) : unit requires { 0 <= n <= m } variant { m - n } ensures { pow2 n <= pow2 m }
  = if n < m then begin pow2_mono n (m - 1); pow2_at (m - 1) end
  let ghost pow2_63 () : unit ensures { pow2 63 = 9223372036854775808 }
  = pow2_at 0; pow2_at 1; pow2_at 2; pow2_at 3; pow2_at 4; pow2_at 5; pow2_at 6; pow2_at 7; assert { pow2 8 = 256 };
    pow2_at 8; pow2_at 9; pow2_at 10; pow2_at 11; pow2_at 12; pow2_at 13; pow2_at 14; pow2_at 15; assert { pow2 16 = 65536 };
    pow2_at 16; pow2_at 17; pow2_at 18; pow2_at 19; pow2_at 20; pow2_at 21; pow2_at 22; pow2_at 23; assert { pow2 24 = 16777216 };
    pow2_at 24; pow2_at 25; pow2_at 26; pow2_at 27; pow2_at 28; pow2_at 29; pow2_at 30; pow2_at 31; assert { pow2 32 = 4294967296 };
    pow2_at 32; pow2_at 33; pow2_at 34; pow2_at 35; pow2_at 36; pow2_at 37; pow2_at 38; pow2_at 39; assert { pow2 40 = 1099511627776 };
    pow2_at 40; pow2_at 41; pow2_at 42; pow2_at 43; pow2_at 44; pow2_at 45; pow2_at 46; pow2_at 47; assert { pow2 48 = 281474976710656 };
    pow2_at 48; pow2_at 49; pow2_at 50; pow2_at 51; pow2_at 52; pow2_at 53; pow2_at 54; pow2_at 55; assert { pow2 56 = 72057594037927936 };
    pow2_at 56; pow2_at 57; pow2_at 58; pow2_at 59; pow2_at 60; pow2_at 61; pow2_at 62; assert { pow2 63 = 9223372036854775808 }
  let ghost shr_far (x n: int) : unit requires { in_s64 x /\ n >= 63 } ensures { div x (pow2 n) = div x (pow2 63) }
  = pow2_63 (); pow2_mono 63 n;
    let p = pure { pow2 n } in
    let d = pure { div x p } in let m = pure { mod x p } in
    assert { x = p * d + m /\ 0 <= m < p };
    assert { d >= 1 -> p * d >= p };
    assert { d <= -2 -> p * d <= p * (-2) };
    assert { d = -1 \/ d = 0 };
    assert { x < 0 -> d = -1 };
    assert { x >= 0 -> d = 0 }
  let ghost shl_far (x n: int) : unit requires { in_s64 x /\ n >= 64 /\ in_s64 (x * pow2 n) } ensures { x = 0 }
  = pow2_63 (); pow2_mono 64 n; pow2_at 63;
    let p = pure { pow2 n } in
    assert { x >= 1 -> x * p >= p }; assert { x <= -1 -> x * p <= - p }
end

module Hash
  use mem.Mem
  use mem.Str
  use Scm
  use List
  use Vec
  use Strg
  (* the bucket number of the name at p *)
  function hidx (m: map int int) (p size: int) : int
  val ghost hidx_is (m: map int int) (p size: int) : unit   (* definition *)
    ensures { hidx m p size = mod (u8 m[p] * 37 + (if m[p] = 0 then 0 else u8 m[p+1] * 43)) size }
  (* a table is a record with the number of buckets in slot 3 and the vector of buckets in slot 4 *)
  function hsize (cdr: map int int) (t: int) : int = cdr[cdr[t] + 72]
  function hslot (car cdr: map int int) (t i: int) : int
  axiom hslot_def: forall car cdr t i [hslot car cdr t i]. hslot car cdr t i = cdr[car[cdr[t] + 96]] + 24 * i
  function hbucket (car cdr: map int int) (t i: int) : int
  axiom hbucket_def: forall car cdr t i [hbucket car cdr t i]. hbucket car cdr t i = car[hslot car cdr t i]
  predicate slots (vs: map int bool) (ty car cdr: map int int) (cells free x: int) =
    vs[x] /\ 0 <= x < free /\ 0 <= car[x] <= 1000000000000000 /\ cells <= cdr[x] /\ cdr[x] + 24 * car[x] <= free
    /\ forall a. cdr[x] <= a < cdr[x] + 24 * car[x] -> mod (a - cdr[x]) 24 = 0 -> vs[a] /\ chr ty cdr a /\ (ty[a] = tREF -> vs[car[a]] /\ 0 <= car[a] < free /\ chr ty cdr car[a])
  predicate hkey (vs v8: map int bool) (ty car cdr: map int int) (free y: int) =
    vs[y] /\ y < free /\ 0 <= ty[y] <= 17 /\ (ty[y] = tSTRING \/ ty[y] = tKEYWORD \/ ty[y] = tSYMBOL \/ ty[y] = tSPECIAL -> wstr car cdr v8 y /\ cdr[y] < free /\ ty[cdr[y]] = tBYTES)
  (* a bucket: n pairs (key . value) *)
  predicate entries (vs v8: map int bool) (ty car cdr: map int int) (nil f cells free b n: int)
  axiom entries_def: forall vs v8 ty car cdr nil f cells free b n [entries vs v8 ty car cdr nil f cells free b n]. entries vs v8 ty car cdr nil f cells free b n <->
    (0 <= n <= 1000000000000 /\ lst ty cdr nil cells free b n
     /\ forall k. 0 <= k < n -> let e = car[nth cdr b k] in vs[e] /\ 0 <= e < free /\ ty[e] = tPAIR /\ e <> f /\ hkey vs v8 ty car cdr free car[e])
  predicate htab (vs v8: map int bool) (ty car cdr: map int int) (nil f cells free t: int) (len: map int int)
  axiom htab_def: forall vs v8 ty car cdr nil f cells free t len [htab vs v8 ty car cdr nil f cells free t len]. htab vs v8 ty car cdr nil f cells free t len <->
    (ty[t] = tSTRUCT /\ 5 <= car[t] /\ slots vs ty car cdr cells free t
     /\ ty[cdr[t] + 72] = tNUMBER /\ 0 < hsize cdr t <= 1000000000
     /\ ty[cdr[t] + 96] = tREF /\ (let v = car[cdr[t] + 96] in ty[v] = tVECTOR /\ car[v] = hsize cdr t /\ slots vs ty car cdr cells free v /\ (cdr[v] + 24 * car[v] <= cdr[t] \/ cdr[t] + 24 * car[t] <= cdr[v]))
     /\ forall i [hslot car cdr t i]. 0 <= i < hsize cdr t -> ty[hslot car cdr t i] = tREF /\ not imm ty[hbucket car cdr t i] /\ if ty[hbucket car cdr t i] = tPAIR then entries vs v8 ty car cdr nil f cells free (hbucket car cdr t i) len[i] else len[i] = 0)
  (* the key and the value of entry k of the bucket b *)
  function keyat (car cdr: map int int) (b k: int) : int = car[car[nth cdr b k]]
  function valat (car cdr: map int int) (b k: int) : int = cdr[car[nth cdr b k]]
  (* entry k is the first whose key is a string equal to x; no entry is *)
  predicate first_string (ty car cdr m: map int int) (b n x k: int) =
    0 <= k < n /\ same_string ty car cdr m x (keyat car cdr b k) /\ forall j. 0 <= j < k -> not same_string ty car cdr m x (keyat car cdr b j)
  predicate no_string (ty car cdr m: map int int) (b n x: int) = forall j. 0 <= j < n -> not same_string ty car cdr m x (keyat car cdr b j)
  predicate first_eq (car cdr: map int int) (b n x k: int) =
    0 <= k < n /\ x = keyat car cdr b k /\ forall j. 0 <= j < k -> x <> keyat car cdr b j
  predicate no_eq (car cdr: map int int) (b n x: int) = forall j. 0 <= j < n -> x <> keyat car cdr b j
  predicate agree (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (free: int) = forall a. a < free -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ cdr2[a] = cdr1[a]
  let ghost entries_frame (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 b n: int) : unit
    requires { entries vs v8 ty1 car1 cdr1 nil f cells free1 b n }
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    ensures { entries vs v8 ty2 car2 cdr2 nil f cells free2 b n }
    ensures { forall k. 0 <= k <= n -> nth cdr2 b k = nth cdr1 b k }
    ensures { forall k. 0 <= k < n -> car2[nth cdr1 b k] = car1[nth cdr1 b k] }
    ensures { forall k. 0 <= k < n -> keyat car2 cdr2 b k = keyat car1 cdr1 b k /\ valat car2 cdr2 b k = valat car1 cdr1 b k }
    ensures { forall k. 0 <= k < n -> hkey vs v8 ty1 car1 cdr1 free1 (keyat car1 cdr1 b k) }
  = nth_same cdr1 cdr2 b n;
    assert { lst ty2 cdr2 nil cells free2 b n };
    assert { forall k. 0 <= k < n -> let e = car1[nth cdr1 b k] in car2[nth cdr2 b k] = e /\ car2[e] = car1[e] /\ cdr2[e] = cdr1[e] /\ hkey vs v8 ty2 car2 cdr2 free2 car1[e] }
  (* string comparison of existing objects is not affected by changes elsewhere *)
  let ghost string_frame (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free1 x: int) : unit
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { hkey vs v8 ty1 car1 cdr1 free1 x }
    ensures { forall y [same_string ty1 car1 cdr1 m x y | same_string ty2 car2 cdr2 m x y]. hkey vs v8 ty1 car1 cdr1 free1 y -> (same_string ty1 car1 cdr1 m x y <-> same_string ty2 car2 cdr2 m x y) }
  = assert { forall y. y < free1 -> (str_eq car1 cdr1 m x y <-> str_eq car2 cdr2 m x y) }
  let ghost slots_frame (vs: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (cells free1 free2 x: int) : unit
    requires { slots vs ty1 car1 cdr1 cells free1 x }
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    ensures { slots vs ty2 car2 cdr2 cells free2 x }
  = ()
  let ghost htab_use (vs v8: map int bool) (ty car cdr: map int int) (nil f cells free t: int) (len: map int int) (i: int) : unit
    requires { htab vs v8 ty car cdr nil f cells free t len } requires { 0 <= i < hsize cdr t }
    ensures { ty[hslot car cdr t i] = tREF /\ not imm ty[hbucket car cdr t i] } ensures { vs[hbucket car cdr t i] /\ 0 <= hbucket car cdr t i < free }
    ensures { ty[hbucket car cdr t i] = tPAIR -> entries vs v8 ty car cdr nil f cells free (hbucket car cdr t i) len[i] }
    ensures { ty[hbucket car cdr t i] <> tPAIR -> len[i] = 0 }
    ensures { let v = car[cdr[t] + 96] in hslot car cdr t i = cdr[v] + 24 * i /\ cells <= hslot car cdr t i /\ hslot car cdr t i + 24 <= free }
  = let v = pure { car[cdr[t] + 96] } in
    assert { let a = cdr[v] + 24 * i in cdr[v] <= a < cdr[v] + 24 * car[v] /\ mod (a - cdr[v]) 24 = 0 };
    assert { ty[hslot car cdr t i] = tREF };
    assert { let a = cdr[v] + 24 * i in ty[a] = tREF -> vs[car[a]] /\ 0 <= car[a] < free }
  (* the slot s was made to refer to the new pair p = ((key . value) . what the bucket was) *)
  predicate pushed (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil free1 t i key value p: int) =
    let s = hslot car1 cdr1 t i in let e = car2[p] in
    (forall a. a < free1 -> a <> s -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ cdr2[a] = cdr1[a])
    /\ ty2[s] = tREF /\ car2[s] = p /\ free1 <= p /\ ty2[p] = tPAIR
    /\ free1 <= e /\ ty2[e] = tPAIR /\ car2[e] = key /\ cdr2[e] = value
    /\ cdr2[p] = (if ty1[hbucket car1 cdr1 t i] = tPAIR then hbucket car1 cdr1 t i else nil)
  let ghost entries_push (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 s p b n: int) : unit
    requires { entries vs v8 ty1 car1 cdr1 nil f cells free1 b n }
    requires { ty1[s] = tREF /\ ty2[s] = tREF } requires { free1 <= free2 }
    requires { forall a. a < free1 -> a <> s -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ cdr2[a] = cdr1[a] }
    ensures { entries vs v8 ty2 car2 cdr2 nil f cells free2 b n }
    ensures { forall k. 0 <= k <= n -> nth cdr2 b k = nth cdr1 b k }
    ensures { forall k. 0 <= k < n -> car2[nth cdr1 b k] = car1[nth cdr1 b k] }
    ensures { forall k. 0 <= k < n -> keyat car2 cdr2 b k = keyat car1 cdr1 b k /\ valat car2 cdr2 b k = valat car1 cdr1 b k }
  = assert { lst ty1 cdr1 nil cells free1 b n };
    assert { forall k. 0 <= k < n -> nth cdr1 b k <> s /\ nth cdr1 b k < free1 };
    nth_same cdr1 cdr2 b n;
    assert { lst ty2 cdr2 nil cells free2 b n };
    assert { forall k. 0 <= k < n -> car1[nth cdr1 b k] <> s };
    assert { forall k. 0 <= k < n -> let e = car1[nth cdr1 b k] in car2[nth cdr2 b k] = e /\ car2[e] = car1[e] /\ cdr2[e] = cdr1[e] /\ ty2[e] = ty1[e] };
    assert { forall y. hkey vs v8 ty1 car1 cdr1 free1 y -> hkey vs v8 ty2 car2 cdr2 free2 y };
    assert { forall k. 0 <= k < n -> hkey vs v8 ty2 car2 cdr2 free2 (keyat car1 cdr1 b k) }
  let ghost bucket_push (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 t: int) (len: map int int) (i key value p: int) : unit
    requires { htab vs v8 ty1 car1 cdr1 nil f cells free1 t len } requires { 0 <= i < hsize cdr1 t } requires { free1 <= free2 }
    requires { pushed ty1 car1 cdr1 ty2 car2 cdr2 nil free1 t i key value p }
    requires { ty1[nil] <> tPAIR /\ p <> nil /\ f < free1 /\ len[i] < 1000000000000 }
    requires { obj p cells free2 /\ vs[car2[p]] /\ 0 <= car2[p] < free2 /\ hkey vs v8 ty2 car2 cdr2 free2 key }
    ensures { entries vs v8 ty2 car2 cdr2 nil f cells free2 p (len[i] + 1) }
    ensures { keyat car2 cdr2 p 0 = key /\ valat car2 cdr2 p 0 = value }
    ensures { forall k. 1 <= k <= len[i] -> keyat car2 cdr2 p k = keyat car1 cdr1 (hbucket car1 cdr1 t i) (k-1) /\ valat car2 cdr2 p k = valat car1 cdr1 (hbucket car1 cdr1 t i) (k-1) }
  = htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len i;
    let b = pure { hbucket car1 cdr1 t i } in let s = pure { hslot car1 cdr1 t i } in let n = pure { len[i] } in
    if pure { ty1[b] = tPAIR } then begin
      entries_push vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 s p b n;
      assert { forall k. 0 <= k < n -> nth cdr2 b k = nth cdr1 b k };
      nth_push cdr2 cdr2 b p n;
      assert { forall k. 1 <= k <= n + 1 -> nth cdr2 p k = nth cdr2 b (k - 1) };
      assert { lst ty2 cdr2 nil cells free2 b n };
      assert { nth cdr2 p 0 = p };
      assert { lst ty2 cdr2 nil cells free2 p (n + 1) };
      assert { forall k. 1 <= k <= n -> nth cdr2 p k = nth cdr2 b (k - 1) };
      assert { forall k. 0 <= k < n -> let e = car2[nth cdr2 b k] in vs[e] /\ 0 <= e < free2 /\ ty2[e] = tPAIR /\ e <> f /\ hkey vs v8 ty2 car2 cdr2 free2 car2[e] };
      assert { forall k. 1 <= k <= n -> let e = car2[nth cdr2 p k] in vs[e] /\ 0 <= e < free2 /\ ty2[e] = tPAIR /\ e <> f /\ hkey vs v8 ty2 car2 cdr2 free2 car2[e] }
    end else begin
      assert { n = 0 };
      assert { nth cdr2 p 1 = nil };
      assert { nth cdr2 p 0 = p };
      assert { lst ty2 cdr2 nil cells free2 p 1 }
    end;
    assert { let e = car2[nth cdr2 p 0] in vs[e] /\ 0 <= e < free2 /\ ty2[e] = tPAIR /\ e <> f /\ hkey vs v8 ty2 car2 cdr2 free2 car2[e] };
    assert { forall k. 0 <= k < n + 1 -> let e = car2[nth cdr2 p k] in vs[e] /\ 0 <= e < free2 /\ ty2[e] = tPAIR /\ e <> f /\ hkey vs v8 ty2 car2 cdr2 free2 car2[e] };
    assert { lst ty2 cdr2 nil cells free2 p (n + 1) }
  let ghost htab_push (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 t: int) (len: map int int) (i key value p: int) : unit
    requires { htab vs v8 ty1 car1 cdr1 nil f cells free1 t len } requires { 0 <= i < hsize cdr1 t } requires { free1 <= free2 }
    requires { pushed ty1 car1 cdr1 ty2 car2 cdr2 nil free1 t i key value p }
    requires { ty1[nil] <> tPAIR /\ p <> nil /\ f < free1 /\ len[i] < 1000000000000 }
    requires { obj p cells free2 /\ vs[p] /\ vs[car2[p]] /\ 0 <= car2[p] < free2 /\ hkey vs v8 ty2 car2 cdr2 free2 key }
    ensures { htab vs v8 ty2 car2 cdr2 nil f cells free2 t len[i <- len[i] + 1] }
    ensures { hsize cdr2 t = hsize cdr1 t } ensures { hbucket car2 cdr2 t i = p }
    ensures { forall j [hbucket car2 cdr2 t j]. 0 <= j < hsize cdr1 t -> j <> i -> hbucket car2 cdr2 t j = hbucket car1 cdr1 t j }
  = htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len i;
    bucket_push vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 t len i key value p;
    let v = pure { car1[cdr1[t] + 96] } in let s = pure { hslot car1 cdr1 t i } in
    assert { cdr1[v] <= s < cdr1[v] + 24 * car1[v] };
    assert { t <> s /\ v <> s /\ cdr1[t] + 72 <> s /\ cdr1[t] + 96 <> s };
    assert { ty2[t] = tSTRUCT /\ cdr2[t] = cdr1[t] /\ car2[t] = car1[t] };
    assert { car2[cdr2[t] + 96] = v /\ cdr2[v] = cdr1[v] /\ car2[v] = car1[v] /\ ty2[v] = tVECTOR };
    assert { forall j. hslot car2 cdr2 t j = hslot car1 cdr1 t j };
    assert { forall a. a < free1 -> a <> s -> chr ty1 cdr1 a -> chr ty2 cdr2 a };
    assert { slots vs ty2 car2 cdr2 cells free2 t };
    assert { forall a. cdr1[v] <= a < cdr1[v] + 24 * car1[v] -> mod (a - cdr1[v]) 24 = 0 -> a <> s -> vs[a] /\ chr ty2 cdr2 a /\ (ty2[a] = tREF -> vs[car2[a]] /\ 0 <= car2[a] < free2 /\ chr ty2 cdr2 car2[a]) };
    assert { slots vs ty2 car2 cdr2 cells free2 v };
    let m = pure { hsize cdr1 t } in
    for j = 0 to m - 1 do
      invariant { forall q. 0 <= q < j -> ty2[hslot car1 cdr1 t q] = tREF /\ (q <> i -> car2[hslot car1 cdr1 t q] = hbucket car1 cdr1 t q) /\ let bq = car2[hslot car1 cdr1 t q] in not imm ty2[bq] /\ if ty2[bq] = tPAIR then entries vs v8 ty2 car2 cdr2 nil f cells free2 bq len[i <- len[i] + 1][q] else len[i <- len[i] + 1][q] = 0 }
      if j <> i then begin
        htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len j;
        let b = pure { hbucket car1 cdr1 t j } in
        assert { hslot car1 cdr1 t j = cdr1[v] + 24 * j /\ hslot car1 cdr1 t j <> s };
        assert { car2[hslot car1 cdr1 t j] = b };
        assert { b <> s -> ty2[b] = ty1[b] };
        if pure { ty1[b] = tPAIR } then
          entries_push vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 s p b (pure { len[j] })
      end
    done;
    assert { forall j. 0 <= j < m -> hbucket car2 cdr2 t j = car2[hslot car1 cdr1 t j] };
    assert { 0 < hsize cdr2 t <= 1000000000 /\ ty2[cdr2[t] + 72] = tNUMBER /\ ty2[cdr2[t] + 96] = tREF };
    assert { car2[v] = hsize cdr2 t /\ (cdr2[v] + 24 * car2[v] <= cdr2[t] \/ cdr2[t] + 24 * car2[t] <= cdr2[v]) };
    assert { let u = car2[cdr2[t] + 96] in ty2[u] = tVECTOR /\ car2[u] = hsize cdr2 t /\ slots vs ty2 car2 cdr2 cells free2 u /\ (cdr2[u] + 24 * car2[u] <= cdr2[t] \/ cdr2[t] + 24 * car2[t] <= cdr2[u]) };
    assert { forall j [hslot car2 cdr2 t j]. 0 <= j < hsize cdr2 t -> ty2[hslot car2 cdr2 t j] = tREF /\ not imm ty2[hbucket car2 cdr2 t j] /\ if ty2[hbucket car2 cdr2 t j] = tPAIR then entries vs v8 ty2 car2 cdr2 nil f cells free2 (hbucket car2 cdr2 t j) len[i <- len[i] + 1][j] else len[i <- len[i] + 1][j] = 0 }
  (* a table is not affected by new objects *)
  let ghost htab_frame (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 t: int) (len: map int int) : unit
    requires { htab vs v8 ty1 car1 cdr1 nil f cells free1 t len }
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    ensures { htab vs v8 ty2 car2 cdr2 nil f cells free2 t len }
    ensures { hsize cdr2 t = hsize cdr1 t }
    ensures { forall j. 0 <= j < hsize cdr1 t -> hslot car2 cdr2 t j = hslot car1 cdr1 t j /\ hbucket car2 cdr2 t j = hbucket car1 cdr1 t j /\ hslot car1 cdr1 t j < free1 }
  = let v = pure { car1[cdr1[t] + 96] } in
    slots_frame vs ty1 car1 cdr1 ty2 car2 cdr2 cells free1 free2 t;
    slots_frame vs ty1 car1 cdr1 ty2 car2 cdr2 cells free1 free2 v;
    assert { slots vs ty1 car1 cdr1 cells free1 t /\ 5 <= car1[t] };
    assert { cdr1[t] + 96 < free1 /\ v < free1 /\ t < free1 };
    assert { cdr2[t] = cdr1[t] /\ car2[t] = car1[t] /\ ty2[t] = tSTRUCT };
    assert { car2[cdr2[t] + 96] = v /\ cdr2[v] = cdr1[v] };
    assert { forall j. hslot car2 cdr2 t j = hslot car1 cdr1 t j };
    let m = pure { hsize cdr1 t } in
    for j = 0 to m - 1 do
      invariant { forall q. 0 <= q < j -> hslot car1 cdr1 t q < free1 /\ hbucket car1 cdr1 t q < free1 }
      invariant { forall q. 0 <= q < j -> ty2[hslot car1 cdr1 t q] = tREF /\ car2[hslot car1 cdr1 t q] = hbucket car1 cdr1 t q /\ let bq = hbucket car1 cdr1 t q in not imm ty2[bq] /\ if ty2[bq] = tPAIR then entries vs v8 ty2 car2 cdr2 nil f cells free2 bq len[q] else len[q] = 0 }
      htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len j;
      let b = pure { hbucket car1 cdr1 t j } in
      if pure { ty1[b] = tPAIR } then entries_frame vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 b (pure { len[j] })
    done;
    assert { forall j. 0 <= j < m -> hbucket car2 cdr2 t j = hbucket car1 cdr1 t j };
    assert { 0 < hsize cdr2 t <= 1000000000 /\ ty2[cdr2[t] + 72] = tNUMBER /\ ty2[cdr2[t] + 96] = tREF };
    assert { let u = car2[cdr2[t] + 96] in ty2[u] = tVECTOR /\ car2[u] = hsize cdr2 t /\ slots vs ty2 car2 cdr2 cells free2 u /\ (cdr2[u] + 24 * car2[u] <= cdr2[t] \/ cdr2[t] + 24 * car2[t] <= cdr2[u]) };
    assert { forall j [hslot car2 cdr2 t j]. 0 <= j < hsize cdr2 t -> ty2[hslot car2 cdr2 t j] = tREF /\ not imm ty2[hbucket car2 cdr2 t j] /\ if ty2[hbucket car2 cdr2 t j] = tPAIR then entries vs v8 ty2 car2 cdr2 nil f cells free2 (hbucket car2 cdr2 t j) len[j] else len[j] = 0 }
  let ghost pushed_early (ty0 car0 cdr0 ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil free0 free1 t i key value p: int) : unit
    requires { pushed ty1 car1 cdr1 ty2 car2 cdr2 nil free1 t i key value p }
    requires { agree ty0 car0 cdr0 ty1 car1 cdr1 free0 } requires { free0 <= free1 }
    requires { hslot car1 cdr1 t i = hslot car0 cdr0 t i /\ hbucket car1 cdr1 t i = hbucket car0 cdr0 t i /\ 0 <= hbucket car0 cdr0 t i < free0 }
    ensures { pushed ty0 car0 cdr0 ty2 car2 cdr2 nil free0 t i key value p }
  = ()
  let ghost mod_div (a: int) : unit requires { mod a 24 = 0 } ensures { a = 24 * div a 24 } = ()
  let ghost mod_add (a b: int) : unit requires { mod a 24 = 0 /\ mod b 24 = 0 } ensures { mod (a + b) 24 = 0 }
  = mod_div a; mod_div b; assert { a + b = 24 * (div a 24 + div b 24) }
  constant empty : map int int
  axiom empty_def: forall i. empty[i] = 0
  (* the words from a multiple of 24 on *)
  let ghost aligned (c r: int) : unit requires { mod (r - c) 24 = 0 }
    ensures { forall i. mod (i - r) 24 = 0 -> mod (i - c) 24 = 0 }
  = mod_div (r - c);
    assert { forall i. mod (i - r) 24 = 0 -> i - r = 24 * div (i - r) 24 };
    assert { forall i. mod (i - r) 24 = 0 -> i - c = 24 * (div (i - r) 24 + div (r - c) 24) }
  let ghost five (r: int) : unit
    ensures { forall i. r <= i < r + 24 * 5 -> mod (i - r) 24 = 0 -> i = r \/ i = r + 24 \/ i = r + 48 \/ i = r + 72 \/ i = r + 96 }
  = assert { forall i. mod (i - r) 24 = 0 -> i - r = 24 * div (i - r) 24 };
    assert { forall i. r <= i < r + 24 * 5 -> mod (i - r) 24 = 0 -> 0 <= div (i - r) 24 < 5 };
    assert { forall i. r <= i < r + 24 * 5 -> mod (i - r) 24 = 0 -> let q = div (i - r) 24 in q = 0 \/ q = 1 \/ q = 2 \/ q = 3 \/ q = 4 }
  (* a record of five slots and a vector of u make an empty table *)
  let ghost new_htab (vs v8: map int bool) (ty car cdr: map int int) (nil f cells free lim r b size u: int) : unit
    requires { arena_cells vs cells lim /\ free <= lim /\ 0 < cells <= b /\ mod (r - cells) 24 = 0 /\ mod (b - cells) 24 = 0 }
    requires { ty[r] = tSTRUCT /\ car[r] = 5 /\ cdr[r] = r + 24 /\ r + 144 <= free }
    requires { ty[b] = tVECTOR /\ car[b] = size /\ cdr[b] = b + 24 /\ b + 24 + 24 * size <= r /\ 0 < size <= 1000000000 }
    requires { forall a. r + 24 <= a < r + 144 -> mod (a - (r + 24)) 24 = 0 -> ty[a] <> tCHAR /\ (ty[a] = tREF -> obj car[a] cells free /\ ty[car[a]] <> tCHAR) }
    requires { ty[r+96] = tNUMBER /\ cdr[r+96] = size /\ ty[r+120] = tREF /\ car[r+120] = b }
    requires { forall a. b + 24 <= a < b + 24 + 24 * size -> mod (a - b) 24 = 0 -> ty[a] = tREF /\ car[a] = u }
    requires { obj u cells free /\ not imm ty[u] /\ ty[u] <> tPAIR }
    ensures { htab vs v8 ty car cdr nil f cells free r empty } ensures { hsize cdr r = size }
  = mod_add (r - cells) 24; mod_add (b - cells) 24;
    aligned cells (r + 24); aligned cells (b + 24); aligned b (b + 24);
    assert { forall a. obj a cells free -> vs[a] };
    assert { vs[r] /\ vs[b] /\ vs[u] };
    assert { forall a. r + 24 <= a < r + 24 + 24 * 5 -> mod (a - (r + 24)) 24 = 0 -> mod (a - cells) 24 = 0 };
    assert { forall a. r + 24 <= a < r + 24 + 24 * 5 -> mod (a - (r + 24)) 24 = 0 -> vs[a] };
    assert { slots vs ty car cdr cells free r };
    assert { forall a. b + 24 <= a < b + 24 + 24 * size -> mod (a - (b + 24)) 24 = 0 -> mod (a - cells) 24 = 0 /\ mod (a - b) 24 = 0 };
    assert { forall a. b + 24 <= a < b + 24 + 24 * size -> mod (a - (b + 24)) 24 = 0 -> vs[a] /\ ty[a] = tREF /\ car[a] = u };
    assert { slots vs ty car cdr cells free b };
    assert { hsize cdr r = size };
    assert { forall i. hslot car cdr r i = b + 24 + 24 * i };
    assert { forall i. mod (24 * i) 24 = 0 };
    assert { forall i. 0 <= i < size -> let a = b + 24 + 24 * i in b + 24 <= a < b + 24 + 24 * size /\ mod (a - (b + 24)) 24 = 0 };
    assert { forall i. 0 <= i < size -> let a = b + 24 + 24 * i in ty[a] = tREF /\ car[a] = u };
    assert { forall i. 0 <= i < size -> hslot car cdr r i = b + 24 + 24 * i /\ hbucket car cdr r i = u /\ ty[hslot car cdr r i] = tREF };
    assert { let v = car[cdr[r] + 96] in v = b /\ ty[v] = tVECTOR /\ car[v] = hsize cdr r /\ slots vs ty car cdr cells free v /\ (cdr[v] + 24 * car[v] <= cdr[r] \/ cdr[r] + 24 * car[r] <= cdr[v]) };
    assert { ty[r] = tSTRUCT /\ 5 <= car[r] /\ 0 < hsize cdr r <= 1000000000 /\ ty[cdr[r] + 72] = tNUMBER /\ ty[cdr[r] + 96] = tREF };
    assert { forall i [hslot car cdr r i]. 0 <= i < hsize cdr r -> ty[hslot car cdr r i] = tREF /\ not imm ty[hbucket car cdr r i] /\ if ty[hbucket car cdr r i] = tPAIR then entries vs v8 ty car cdr nil f cells free (hbucket car cdr r i) empty[i] else empty[i] = 0 }
  (* equal names have the same bucket number *)
  let lemma hidx_range (m: map int int) (p size: int) requires { 0 < size } ensures { 0 <= hidx m p size < size } = hidx_is m p size
  let lemma hidx_same (m: map int int) (p q size: int) requires { m[p] = m[q] /\ (m[p] <> 0 -> m[p+1] = m[q+1]) } ensures { hidx m p size = hidx m q size } = hidx_is m p size; hidx_is m q size
  let ghost name_bucket (car cdr m: map int int) (v8: map int bool) (x y size: int) : unit
    requires { wstr car cdr v8 x /\ wstr car cdr v8 y /\ str_eq car cdr m x y }
    requires { m[cdr[x] + 16 + car[x]] = 0 /\ m[cdr[y] + 16 + car[y]] = 0 }
    ensures { hidx m (cdr[x] + 16) size = hidx m (cdr[y] + 16) size }
  = let p = pure { cdr[x] + 16 } in let q = pure { cdr[y] + 16 } in
    assert { car[x] > 0 -> m[p] = m[q + (p - p)] };
    assert { m[p] = m[q] };
    assert { m[p] <> 0 -> car[x] > 0 };
    assert { car[x] > 1 -> m[p+1] = m[q + (p + 1 - p)] };
    assert { m[p] <> 0 -> m[p+1] = m[q+1] }
  (* what a lookup finds after (key . value) was put in front of the n entries of the bucket b, giving the bucket p *)
  let ghost lookup_after (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (b p n key value x: int) : unit
    requires { keyat car2 cdr2 p 0 = key /\ valat car2 cdr2 p 0 = value /\ 0 <= n }
    requires { forall k. 1 <= k <= n -> keyat car2 cdr2 p k = keyat car1 cdr1 b (k-1) /\ valat car2 cdr2 p k = valat car1 cdr1 b (k-1) }
    requires { forall y. same_string ty2 car2 cdr2 m x y <-> same_string ty1 car1 cdr1 m x y }
    ensures { same_string ty2 car2 cdr2 m x key -> first_string ty2 car2 cdr2 m p (n+1) x 0 }
    ensures { not same_string ty2 car2 cdr2 m x key -> forall k. first_string ty1 car1 cdr1 m b n x k -> first_string ty2 car2 cdr2 m p (n+1) x (k+1) /\ valat car2 cdr2 p (k+1) = valat car1 cdr1 b k }
    ensures { not same_string ty2 car2 cdr2 m x key -> no_string ty1 car1 cdr1 m b n x -> no_string ty2 car2 cdr2 m p (n+1) x }
    ensures { first_eq car2 cdr2 p (n+1) key 0 }
    ensures { x <> key -> forall k. first_eq car1 cdr1 b n x k -> first_eq car2 cdr2 p (n+1) x (k+1) /\ valat car2 cdr2 p (k+1) = valat car1 cdr1 b k }
    ensures { x <> key -> no_eq car1 cdr1 b n x -> no_eq car2 cdr2 p (n+1) x }
  = assert { forall k. 0 <= k < n -> keyat car2 cdr2 p (k+1) = keyat car1 cdr1 b k /\ valat car2 cdr2 p (k+1) = valat car1 cdr1 b k };
    assert { forall j. 1 <= j < n + 1 -> keyat car2 cdr2 p j = keyat car1 cdr1 b (j-1) }
  (* the table t names symbols: every entry sits in the bucket of its key, and the value has the key's name *)
  predicate named (ty car cdr m: map int int) (free i size key v: int) =
    ty[key] = tSTRING /\ m[cdr[key] + 16 + car[key]] = 0 /\ 0 <= v < free /\ (ty[v] = tSYMBOL \/ ty[v] = tSPECIAL) /\ car[v] = car[key] /\ cdr[v] = cdr[key] /\ hidx m (cdr[key] + 16) size = i
  predicate bnames (vs: map int bool) (ty car cdr m: map int int) (free i size b n: int)
  axiom bnames_def: forall vs ty car cdr m free i size b n [bnames vs ty car cdr m free i size b n]. bnames vs ty car cdr m free i size b n <->
    forall k. 0 <= k < n -> vs[valat car cdr b k] /\ named ty car cdr m free i size (keyat car cdr b k) (valat car cdr b k)
  predicate symtab (vs v8: map int bool) (ty car cdr m: map int int) (nil f cells free t: int) (len: map int int)
  axiom symtab_def: forall vs v8 ty car cdr m nil f cells free t len [symtab vs v8 ty car cdr m nil f cells free t len]. symtab vs v8 ty car cdr m nil f cells free t len <->
    (htab vs v8 ty car cdr nil f cells free t len
     /\ forall i [hbucket car cdr t i]. 0 <= i < hsize cdr t -> bnames vs ty car cdr m free i (hsize cdr t) (hbucket car cdr t i) len[i])
  (* entry k of its bucket is the first with the name of s, and its value is r *)
  predicate found (ty car cdr m: map int int) (t: int) (len: map int int) (s k r: int)
  axiom found_def: forall ty car cdr m t len s k r [found ty car cdr m t len s k r]. found ty car cdr m t len s k r <->
    let i = hidx m (cdr[s] + 16) (hsize cdr t) in first_string ty car cdr m (hbucket car cdr t i) len[i] s k /\ valat car cdr (hbucket car cdr t i) k = r
  (* the symbol with the name of s is r *)
  predicate interned (ty car cdr m: map int int) (t f: int) (len: map int int) (s r: int)
  axiom interned_def: forall ty car cdr m t f len s r [interned ty car cdr m t f len s r]. interned ty car cdr m t f len s r <->
    (r <> f /\ exists k [found ty car cdr m t len s k r]. found ty car cdr m t len s k r)
  let ghost symtab_use (vs v8: map int bool) (ty car cdr m: map int int) (nil f cells free t: int) (len: map int int) (i: int) : unit
    requires { symtab vs v8 ty car cdr m nil f cells free t len } requires { 0 <= i < hsize cdr t }
    ensures { htab vs v8 ty car cdr nil f cells free t len }
    ensures { bnames vs ty car cdr m free i (hsize cdr t) (hbucket car cdr t i) len[i] }
  = ()
  (* a string that exists *)
  predicate sname (vs v8: map int bool) (ty car cdr m: map int int) (free s: int) = hkey vs v8 ty car cdr free s /\ 0 <= s /\ ty[s] = tSTRING /\ m[cdr[s] + 16 + car[s]] = 0
  (* only the reference s changed among the existing objects *)
  predicate but (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (free s: int) = ty1[s] = tREF /\ ty2[s] = tREF /\ forall a. a < free -> a <> s -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ cdr2[a] = cdr1[a]
  let ghost str_same (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free s x y: int) : unit
    requires { but ty1 car1 cdr1 ty2 car2 cdr2 free s } requires { x < free /\ y < free /\ ty1[x] = tSTRING }
    ensures { same_string ty2 car2 cdr2 m x y <-> same_string ty1 car1 cdr1 m x y }
  = assert { x <> s /\ car2[x] = car1[x] /\ cdr2[x] = cdr1[x] };
    if pure { ty1[y] = tSTRING } then begin
      assert { y <> s /\ car2[y] = car1[y] /\ cdr2[y] = cdr1[y] /\ ty2[y] = tSTRING };
      assert { str_eq car2 cdr2 m x y <-> str_eq car1 cdr1 m x y } end
    else assert { ty2[y] <> tSTRING }
  let ghost str_same_all (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free s: int) : unit
    requires { but ty1 car1 cdr1 ty2 car2 cdr2 free s }
    ensures { forall x y. x < free -> y < free -> ty1[x] = tSTRING -> (same_string ty2 car2 cdr2 m x y <-> same_string ty1 car1 cdr1 m x y) }
  = assert { forall x. x < free -> ty1[x] = tSTRING -> x <> s /\ car2[x] = car1[x] /\ cdr2[x] = cdr1[x] /\ ty2[x] = tSTRING };
    assert { forall x. x < free -> ty1[x] <> tSTRING -> ty2[x] <> tSTRING };
    assert { forall x y. x < free -> y < free -> ty1[x] = tSTRING -> ty1[y] = tSTRING -> str_eq car2 cdr2 m x y -> str_eq car1 cdr1 m x y };
    assert { forall x y. x < free -> y < free -> ty1[x] = tSTRING -> ty1[y] = tSTRING -> str_eq car1 cdr1 m x y -> str_eq car2 cdr2 m x y }
  let ghost named_but (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free1 free2 s h size: int) : unit
    requires { but ty1 car1 cdr1 ty2 car2 cdr2 free1 s } requires { free1 <= free2 }
    ensures { forall k v. k < free1 -> named ty1 car1 cdr1 m free1 h size k v -> named ty2 car2 cdr2 m free2 h size k v }
  = assert { forall k. k < free1 -> ty1[k] = tSTRING -> k <> s /\ car2[k] = car1[k] /\ cdr2[k] = cdr1[k] /\ ty2[k] = tSTRING };
    assert { forall v. v < free1 -> ty1[v] = tSYMBOL \/ ty1[v] = tSPECIAL -> v <> s /\ car2[v] = car1[v] /\ cdr2[v] = cdr1[v] /\ ty2[v] = ty1[v] }
  let ghost str_bucket (car cdr m: map int int) (v8: map int bool) (size: int) : unit
    ensures { forall x y. wstr car cdr v8 x -> wstr car cdr v8 y -> str_eq car cdr m x y -> m[cdr[x] + 16 + car[x]] = 0 -> m[cdr[y] + 16 + car[y]] = 0 -> hidx m (cdr[x] + 16) size = hidx m (cdr[y] + 16) size }
  = assert { forall x y. wstr car cdr v8 x -> wstr car cdr v8 y -> str_eq car cdr m x y -> car[x] > 0 -> m[cdr[x] + 16 + 0] = m[cdr[y] + 16 + 0] };
    assert { forall x y. wstr car cdr v8 x -> wstr car cdr v8 y -> str_eq car cdr m x y -> car[x] > 1 -> let a = cdr[x] + 16 + 1 in m[a] = m[cdr[y] + 16 + (a - (cdr[x] + 16))] };
    assert { forall x y. wstr car cdr v8 x -> wstr car cdr v8 y -> str_eq car cdr m x y -> m[cdr[x] + 16 + car[x]] = 0 -> m[cdr[y] + 16 + car[y]] = 0 -> let p = cdr[x] + 16 in let q = cdr[y] + 16 in m[p] = m[q] /\ (m[p] <> 0 -> m[p+1] = m[q+1]) }
  let ghost bnames_but (vs: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free1 free2 s h size c l: int) : unit
    requires { but ty1 car1 cdr1 ty2 car2 cdr2 free1 s } requires { free1 <= free2 }
    requires { bnames vs ty1 car1 cdr1 m free1 h size c l }
    requires { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 }
    requires { forall k. 0 <= k < l -> keyat car2 cdr2 c k = keyat car1 cdr1 c k /\ valat car2 cdr2 c k = valat car1 cdr1 c k }
    ensures { bnames vs ty2 car2 cdr2 m free2 h size c l }
  = named_but ty1 car1 cdr1 ty2 car2 cdr2 m free1 free2 s h size;
    for j = 0 to l - 1 do
      invariant { forall k. 0 <= k < j -> vs[valat car2 cdr2 c k] /\ named ty2 car2 cdr2 m free2 h size (keyat car2 cdr2 c k) (valat car2 cdr2 c k) }
      assert { vs[valat car1 cdr1 c j] /\ named ty1 car1 cdr1 m free1 h size (keyat car1 cdr1 c j) (valat car1 cdr1 c j) };
      assert { named ty2 car2 cdr2 m free2 h size (keyat car1 cdr1 c j) (valat car1 cdr1 c j) }
    done
  let ghost bnames_push (vs: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free1 free2 s h size c l p: int) : unit
    requires { but ty1 car1 cdr1 ty2 car2 cdr2 free1 s } requires { free1 <= free2 }
    requires { bnames vs ty1 car1 cdr1 m free1 h size c l }
    requires { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 }
    requires { forall k. 1 <= k <= l -> keyat car2 cdr2 p k = keyat car1 cdr1 c (k-1) /\ valat car2 cdr2 p k = valat car1 cdr1 c (k-1) }
    requires { vs[valat car2 cdr2 p 0] /\ named ty2 car2 cdr2 m free2 h size (keyat car2 cdr2 p 0) (valat car2 cdr2 p 0) }
    ensures { bnames vs ty2 car2 cdr2 m free2 h size p (l + 1) }
  = named_but ty1 car1 cdr1 ty2 car2 cdr2 m free1 free2 s h size;
    for j = 1 to l do
      invariant { forall k. 0 <= k < j -> vs[valat car2 cdr2 p k] /\ named ty2 car2 cdr2 m free2 h size (keyat car2 cdr2 p k) (valat car2 cdr2 p k) }
      let q = j - 1 in
      assert { vs[valat car1 cdr1 c q] /\ named ty1 car1 cdr1 m free1 h size (keyat car1 cdr1 c q) (valat car1 cdr1 c q) };
      assert { named ty2 car2 cdr2 m free2 h size (keyat car1 cdr1 c q) (valat car1 cdr1 c q) };
      assert { keyat car2 cdr2 p j = keyat car1 cdr1 c q /\ valat car2 cdr2 p j = valat car1 cdr1 c q }
    done
  let ghost symtab_push (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (nil f cells free1 free2 t: int) (len: map int int) (i key value p: int) : unit
    requires { symtab vs v8 ty1 car1 cdr1 m nil f cells free1 t len } requires { 0 <= i < hsize cdr1 t } requires { free1 <= free2 }
    requires { pushed ty1 car1 cdr1 ty2 car2 cdr2 nil free1 t i key value p }
    requires { htab vs v8 ty2 car2 cdr2 nil f cells free2 t len[i <- len[i] + 1] /\ hsize cdr2 t = hsize cdr1 t /\ hbucket car2 cdr2 t i = p }
    requires { keyat car2 cdr2 p 0 = key /\ valat car2 cdr2 p 0 = value }
    requires { let b = hbucket car1 cdr1 t i in forall k. 1 <= k <= len[i] -> keyat car2 cdr2 p k = keyat car1 cdr1 b (k-1) /\ valat car2 cdr2 p k = valat car1 cdr1 b (k-1) }
    requires { forall j. 0 <= j < hsize cdr1 t -> j <> i -> hbucket car2 cdr2 t j = hbucket car1 cdr1 t j }
    requires { vs[value] /\ value <> f /\ named ty2 car2 cdr2 m free2 i (hsize cdr2 t) key value }
    requires { sname vs v8 ty1 car1 cdr1 m free1 key /\ i = hidx m (cdr1[key] + 16) (hsize cdr1 t) }
    ensures { symtab vs v8 ty2 car2 cdr2 m nil f cells free2 t len[i <- len[i] + 1] }
    ensures { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> str_eq car1 cdr1 m x key -> interned ty2 car2 cdr2 m t f len[i <- len[i] + 1] x value }
    ensures { forall x r. sname vs v8 ty1 car1 cdr1 m free1 x -> not str_eq car1 cdr1 m x key -> interned ty1 car1 cdr1 m t f len x r -> interned ty2 car2 cdr2 m t f len[i <- len[i] + 1] x r }
  = let s = pure { hslot car1 cdr1 t i } in
    symtab_use vs v8 ty1 car1 cdr1 m nil f cells free1 t len i;
    htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len i;
    assert { ty1[s] = tREF /\ ty2[s] = tREF /\ s < free1 };
    let len2 = pure { len[i <- len[i] + 1] } in let size = pure { hsize cdr1 t } in
    let b = pure { hbucket car1 cdr1 t i } in let n = pure { len[i] } in
    assert { but ty1 car1 cdr1 ty2 car2 cdr2 free1 s };
    str_same_all ty1 car1 cdr1 ty2 car2 cdr2 m free1 s;
    for j = 0 to size - 1 do
      invariant { forall q. 0 <= q < j -> bnames vs ty2 car2 cdr2 m free2 q size (hbucket car2 cdr2 t q) len2[q] }
      invariant { forall q. 0 <= q < j -> forall k. 0 <= k < len[q] -> keyat car1 cdr1 (hbucket car1 cdr1 t q) k < free1 }
      invariant { forall q. 0 <= q < j -> q <> i -> forall k. 0 <= k < len[q] -> keyat car2 cdr2 (hbucket car1 cdr1 t q) k = keyat car1 cdr1 (hbucket car1 cdr1 t q) k /\ valat car2 cdr2 (hbucket car1 cdr1 t q) k = valat car1 cdr1 (hbucket car1 cdr1 t q) k }
      symtab_use vs v8 ty1 car1 cdr1 m nil f cells free1 t len j;
      htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len j;
      let c = pure { hbucket car1 cdr1 t j } in let l = pure { len[j] } in
      if pure { ty1[c] = tPAIR } then begin
        entries_frame vs v8 ty1 car1 cdr1 ty1 car1 cdr1 nil f cells free1 free1 c l;
        assert { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 };
        if j <> i then entries_push vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 s p c l
      end;
      assert { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 };
      if j <> i then begin
        assert { forall k. 0 <= k < l -> keyat car2 cdr2 c k = keyat car1 cdr1 c k /\ valat car2 cdr2 c k = valat car1 cdr1 c k };
        bnames_but vs ty1 car1 cdr1 ty2 car2 cdr2 m free1 free2 s j size c l;
        assert { hbucket car2 cdr2 t j = c }
      end else begin
        assert { named ty2 car2 cdr2 m free2 i size key value };
        bnames_push vs ty1 car1 cdr1 ty2 car2 cdr2 m free1 free2 s j size c l p
      end
    done;
    assert { symtab vs v8 ty2 car2 cdr2 m nil f cells free2 t len2 };
    str_bucket car1 cdr1 m v8 size;
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> cdr2[x] = cdr1[x] /\ 0 <= hidx m (cdr1[x] + 16) size < size };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> let h = hidx m (cdr1[x] + 16) size in h <> i -> let c = hbucket car1 cdr1 t h in hbucket car2 cdr2 t h = c /\ len2[h] = len[h] /\ forall k. first_string ty1 car1 cdr1 m c len[h] x k -> first_string ty2 car2 cdr2 m c len[h] x k /\ valat car2 cdr2 c k = valat car1 cdr1 c k };
    assert { forall k. 0 <= k < n -> keyat car2 cdr2 p (k+1) = keyat car1 cdr1 b k /\ valat car2 cdr2 p (k+1) = valat car1 cdr1 b k };
    assert { forall q. 1 <= q < n + 1 -> keyat car2 cdr2 p q = keyat car1 cdr1 b (q-1) };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> (same_string ty2 car2 cdr2 m x key <-> str_eq car1 cdr1 m x key) };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> not str_eq car1 cdr1 m x key -> forall k. first_string ty1 car1 cdr1 m b n x k -> first_string ty2 car2 cdr2 m p (n+1) x (k+1) /\ valat car2 cdr2 p (k+1) = valat car1 cdr1 b k };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> str_eq car1 cdr1 m x key -> hidx m (cdr1[x] + 16) size = i /\ first_string ty2 car2 cdr2 m p (n+1) x 0 };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> let h = hidx m (cdr1[x] + 16) size in h <> i -> found ty1 car1 cdr1 m t len x k r -> first_string ty2 car2 cdr2 m (hbucket car2 cdr2 t h) len2[h] x k /\ valat car2 cdr2 (hbucket car2 cdr2 t h) k = r };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> not str_eq car1 cdr1 m x key -> hidx m (cdr1[x] + 16) size <> i -> found ty1 car1 cdr1 m t len x k r -> found ty2 car2 cdr2 m t len2 x k r };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> hidx m (cdr1[x] + 16) size = i -> found ty1 car1 cdr1 m t len x k r -> first_string ty1 car1 cdr1 m b n x k /\ valat car1 cdr1 b k = r };
    assert { forall x k r. sname vs v8 ty1 car1 cdr1 m free1 x -> hidx m (cdr1[x] + 16) size = i -> first_string ty2 car2 cdr2 m p (n+1) x (k+1) -> valat car2 cdr2 p (k+1) = r -> found ty2 car2 cdr2 m t len2 x (k+1) r };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> not str_eq car1 cdr1 m x key -> hidx m (cdr1[x] + 16) size = i -> found ty1 car1 cdr1 m t len x k r -> found ty2 car2 cdr2 m t len2 x (k+1) r };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> str_eq car1 cdr1 m x key -> found ty2 car2 cdr2 m t len2 x 0 value }
  (* new objects do not affect a symbol table *)
  let ghost str_same_new (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free: int) : unit
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free }
    ensures { forall x y. x < free -> y < free -> (same_string ty2 car2 cdr2 m x y <-> same_string ty1 car1 cdr1 m x y) }
  = assert { forall x y. x < free -> y < free -> str_eq car2 cdr2 m x y -> str_eq car1 cdr1 m x y };
    assert { forall x y. x < free -> y < free -> str_eq car1 cdr1 m x y -> str_eq car2 cdr2 m x y }
  let ghost bnames_new (vs: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (free1 free2 h size c l: int) : unit
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    requires { bnames vs ty1 car1 cdr1 m free1 h size c l }
    requires { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 }
    requires { forall k. 0 <= k < l -> keyat car2 cdr2 c k = keyat car1 cdr1 c k /\ valat car2 cdr2 c k = valat car1 cdr1 c k }
    ensures { bnames vs ty2 car2 cdr2 m free2 h size c l }
  = assert { forall k v. k < free1 -> named ty1 car1 cdr1 m free1 h size k v -> named ty2 car2 cdr2 m free2 h size k v };
    for j = 0 to l - 1 do
      invariant { forall k. 0 <= k < j -> vs[valat car2 cdr2 c k] /\ named ty2 car2 cdr2 m free2 h size (keyat car2 cdr2 c k) (valat car2 cdr2 c k) }
      assert { vs[valat car1 cdr1 c j] /\ named ty1 car1 cdr1 m free1 h size (keyat car1 cdr1 c j) (valat car1 cdr1 c j) };
      assert { named ty2 car2 cdr2 m free2 h size (keyat car1 cdr1 c j) (valat car1 cdr1 c j) }
    done
  let ghost symtab_frame (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (nil f cells free1 free2 t: int) (len: map int int) : unit
    requires { symtab vs v8 ty1 car1 cdr1 m nil f cells free1 t len }
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    ensures { symtab vs v8 ty2 car2 cdr2 m nil f cells free2 t len }
    ensures { hsize cdr2 t = hsize cdr1 t }
    ensures { forall j. 0 <= j < hsize cdr1 t -> hslot car2 cdr2 t j = hslot car1 cdr1 t j /\ hbucket car2 cdr2 t j = hbucket car1 cdr1 t j }
    ensures { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> sname vs v8 ty2 car2 cdr2 m free2 x }
    ensures { forall x r. sname vs v8 ty1 car1 cdr1 m free1 x -> interned ty1 car1 cdr1 m t f len x r -> interned ty2 car2 cdr2 m t f len x r }
    ensures { forall x y. x < free1 -> y < free1 -> ty1[x] = tSTRING -> ty1[y] = tSTRING -> (str_eq car2 cdr2 m x y <-> str_eq car1 cdr1 m x y) }
  = assert { htab vs v8 ty1 car1 cdr1 nil f cells free1 t len };
    htab_frame vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 t len;
    str_same_new ty1 car1 cdr1 ty2 car2 cdr2 m free1;
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> ty2[x] = tSTRING /\ car2[x] = car1[x] /\ cdr2[x] = cdr1[x] /\ car2[cdr2[x]] = car1[cdr1[x]] /\ ty2[cdr2[x]] = tBYTES };
    let size = pure { hsize cdr1 t } in
    for j = 0 to size - 1 do
      invariant { forall q. 0 <= q < j -> bnames vs ty2 car2 cdr2 m free2 q size (hbucket car2 cdr2 t q) len[q] }
      invariant { forall q. 0 <= q < j -> forall k. 0 <= k < len[q] -> keyat car1 cdr1 (hbucket car1 cdr1 t q) k < free1 /\ keyat car2 cdr2 (hbucket car1 cdr1 t q) k = keyat car1 cdr1 (hbucket car1 cdr1 t q) k /\ valat car2 cdr2 (hbucket car1 cdr1 t q) k = valat car1 cdr1 (hbucket car1 cdr1 t q) k }
      symtab_use vs v8 ty1 car1 cdr1 m nil f cells free1 t len j;
      htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len j;
      let c = pure { hbucket car1 cdr1 t j } in let l = pure { len[j] } in
      if pure { ty1[c] = tPAIR } then entries_frame vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 c l;
      assert { forall k. 0 <= k < l -> keyat car1 cdr1 c k < free1 };
      assert { forall k. 0 <= k < l -> keyat car2 cdr2 c k = keyat car1 cdr1 c k /\ valat car2 cdr2 c k = valat car1 cdr1 c k };
      bnames_new vs ty1 car1 cdr1 ty2 car2 cdr2 m free1 free2 j size c l
    done;
    assert { symtab vs v8 ty2 car2 cdr2 m nil f cells free2 t len };
    assert { forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> cdr2[x] = cdr1[x] /\ 0 <= hidx m (cdr1[x] + 16) size < size };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> let h = hidx m (cdr1[x] + 16) size in found ty1 car1 cdr1 m t len x k r -> first_string ty2 car2 cdr2 m (hbucket car2 cdr2 t h) len[h] x k /\ valat car2 cdr2 (hbucket car2 cdr2 t h) k = r };
    assert { forall x k r [found ty1 car1 cdr1 m t len x k r]. sname vs v8 ty1 car1 cdr1 m free1 x -> found ty1 car1 cdr1 m t len x k r -> found ty2 car2 cdr2 m t len x k r }
  (* the name of string, whose bucket number is i, was added with the value v *)
  predicate added (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2 m: map int int) (nil f cells free1 free2 t: int) (len: map int int) (i string v: int) =
    symtab vs v8 ty2 car2 cdr2 m nil f cells free2 t len[i <- len[i] + 1]
    /\ hsize cdr2 t = hsize cdr1 t
    /\ (forall x. sname vs v8 ty1 car1 cdr1 m free1 x -> str_eq car1 cdr1 m x string -> interned ty2 car2 cdr2 m t f len[i <- len[i] + 1] x v)
    /\ (forall x r. sname vs v8 ty1 car1 cdr1 m free1 x -> not str_eq car1 cdr1 m x string -> interned ty1 car1 cdr1 m t f len x r -> interned ty2 car2 cdr2 m t f len[i <- len[i] + 1] x r)
    /\ (forall a. a < free1 -> a <> hslot car1 cdr1 t i -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ cdr2[a] = cdr1[a])
  let ghost str_shared (car cdr m: map int int) : unit
    ensures { forall x y v. str_eq car cdr m x y -> car[v] = car[y] -> cdr[v] = cdr[y] -> str_eq car cdr m x v } = ()
  let ghost str_as (car1 cdr1 car2 cdr2 m: map int int) (x y u v: int) : unit
    requires { car2[u] = car1[x] /\ cdr2[u] = cdr1[x] /\ car2[v] = car1[y] /\ cdr2[v] = cdr1[y] }
    ensures { str_eq car2 cdr2 m u v <-> str_eq car1 cdr1 m x y } = ()
end

(* Environments: association lists in front of the module's hash table. *)
module Env
  use mem.Mem
  use mem.Str
  use Scm
  use List
  use Strg
  use Hash
  val ref g_R0 : int
  val ref g_R1 : int
  val ref g_M0 : int
  (* the number of elements of a proper list that ends after n pairs; -1 when something else ends it *)
  function count_ (ty cdr: map int int) (nil x n: int) : int = if ty[x] = tNUMBER then cdr[x] else if nth cdr x n = nil then n else -1
  (* the list r starts with n new pairs whose elements are new pairs, each of a formal and the argument at its position *)
  predicate paired (ty0 car0 cdr0 ty car cdr: map int int) (free0 free x y r n: int)
  axiom paired_def: forall ty0 car0 cdr0 ty car cdr free0 free x y r n [paired ty0 car0 cdr0 ty car cdr free0 free x y r n]. paired ty0 car0 cdr0 ty car cdr free0 free x y r n <->
    forall k [nth cdr r k]. 0 <= k < n -> let c = nth cdr r k in let e = car[c] in
      free0 <= c < free /\ ty[c] = tPAIR /\ free0 <= e < free /\ ty[e] = tPAIR
      /\ car[e] = car0[nth cdr0 x k] /\ cdr[e] = car0[nth cdr0 y k]
  (* entry k of the association list is the first whose key is x; none is *)
  predicate local_first (ty car cdr m: map int int) (a n x k: int) =
    ty[a] = tPAIR /\ 0 <= k < n /\ eqp ty car cdr m x (keyat car cdr a k) /\ forall j. 0 <= j < k -> not eqp ty car cdr m x (keyat car cdr a j)
  predicate local_none (ty car cdr m: map int int) (a n x: int) =
    ty[a] <> tPAIR \/ forall j. 0 <= j < n -> not eqp ty car cdr m x (keyat car cdr a j)
  function globals_of (car cdr: map int int) (m0: int) : int = car[cdr[m0] + 120]

  let ghost chain_tail (ty1 cdr1 ty2 cdr2: map int int) (nil cells free1 free2 x n: int) : unit
    requires { chain ty1 cdr1 nil cells free1 x n } requires { 0 < n } requires { free1 <= free2 }
    requires { forall a. a < free1 -> ty2[a] = ty1[a] /\ cdr2[a] = cdr1[a] }
    ensures { chain ty2 cdr2 nil cells free2 cdr1[x] (n-1) }
    ensures { forall k. 0 <= k <= n - 1 -> nth cdr2 cdr1[x] k = nth cdr1 x (k+1) }
    ensures { forall k. 1 <= k <= n -> nth cdr2 cdr1[x] (k-1) = nth cdr1 x k }
  = let y = pure { cdr1[x] } in
    for k = 0 to n do invariant { forall j. 0 <= j < k -> nth cdr1 y j = nth cdr1 x (j+1) } nth_tail cdr1 x k done;
    assert { forall j. 0 <= j < n - 1 -> nth cdr1 y j = nth cdr1 x (j+1) /\ obj (nth cdr1 y j) cells free1 };
    nth_same cdr1 cdr2 y (n-1);
    assert { forall k. 0 <= k < n - 1 -> nth cdr2 y k <> nil /\ ty2[nth cdr2 y k] = tPAIR /\ obj (nth cdr2 y k) cells free2 }
  (* one more formal and argument in front *)
  let ghost paired_push (ty0 car0 cdr0 ty1 car1 cdr1 ty2 car2 cdr2 ty3 car3 cdr3: map int int) (free0 free1 free2 free3 nil cells x y r p n: int) : unit
    requires { 0 < n } requires { chain ty0 cdr0 nil cells free0 x n } requires { chain ty0 cdr0 nil cells free0 y n }
    requires { free0 <= free1 <= free2 <= free3 }
    requires { forall a. a < free0 -> ty1[a] = ty0[a] /\ car1[a] = car0[a] /\ cdr1[a] = cdr0[a] }
    requires { forall a. a < free2 -> ty3[a] = ty2[a] /\ car3[a] = car2[a] /\ cdr3[a] = cdr2[a] }
    requires { paired ty1 car1 cdr1 ty2 car2 cdr2 free1 free2 cdr0[x] cdr0[y] r (n-1) }
    requires { free0 <= p < free3 /\ ty3[p] = tPAIR /\ cdr3[p] = r }
    requires { let e = car3[p] in free0 <= e < free3 /\ ty3[e] = tPAIR /\ car3[e] = car0[x] /\ cdr3[e] = car0[y] }
    ensures { paired ty0 car0 cdr0 ty3 car3 cdr3 free0 free3 x y p n }
    ensures { nth cdr3 p n = nth cdr2 r (n-1) }
  = chain_tail ty0 cdr0 ty1 cdr1 nil cells free0 free1 x n;
    chain_tail ty0 cdr0 ty1 cdr1 nil cells free0 free1 y n;
    assert { forall k. 0 <= k < n-1 -> let c = nth cdr2 r k in free1 <= c < free2 /\ cdr3[c] = cdr2[c] };
    nth_push cdr2 cdr3 r p (n-1);
    assert { nth cdr3 p 0 = p /\ nth cdr0 x 0 = x /\ nth cdr0 y 0 = y };
    assert { forall k. 1 <= k < n -> nth cdr3 p k = nth cdr2 r (k-1) };
    assert { forall k. 1 <= k < n -> let e = car2[nth cdr2 r (k-1)] in car2[e] = car1[nth cdr1 cdr0[x] (k-1)] /\ cdr2[e] = car1[nth cdr1 cdr0[y] (k-1)] };
    assert { forall k. 1 <= k < n -> car1[nth cdr1 cdr0[x] (k-1)] = car0[nth cdr0 x k] /\ car1[nth cdr1 cdr0[y] (k-1)] = car0[nth cdr0 y k] };
    assert { forall k. 0 <= k < n -> let c = nth cdr3 p k in let e = car3[c] in free0 <= c < free3 /\ ty3[c] = tPAIR /\ free0 <= e < free3 /\ ty3[e] = tPAIR /\ car3[e] = car0[nth cdr0 x k] /\ cdr3[e] = car0[nth cdr0 y k] }

  (* lookups in a table are not affected by new objects *)
  let ghost bucket_same (vs v8: map int bool) (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (nil f cells free1 free2 t: int) (len: map int int) (i: int) : unit
    requires { htab vs v8 ty1 car1 cdr1 nil f cells free1 t len } requires { 0 <= i < hsize cdr1 t }
    requires { agree ty1 car1 cdr1 ty2 car2 cdr2 free1 } requires { free1 <= free2 }
    ensures { let b = hbucket car1 cdr1 t i in hbucket car2 cdr2 t i = b
      /\ (forall k. 0 <= k < len[i] -> nth cdr2 b k = nth cdr1 b k /\ let e = car1[nth cdr1 b k] in car2[nth cdr1 b k] = e /\ vs[e] /\ 0 <= e < free1 /\ ty1[e] = tPAIR /\ e <> f) }
    ensures { let b = hbucket car1 cdr1 t i in forall k. 0 <= k < len[i] -> keyat car2 cdr2 b k = keyat car1 cdr1 b k }
    ensures { let b = hbucket car1 cdr1 t i in forall x k. first_eq car1 cdr1 b len[i] x k <-> first_eq car2 cdr2 b len[i] x k }
    ensures { let b = hbucket car1 cdr1 t i in forall x. no_eq car1 cdr1 b len[i] x <-> no_eq car2 cdr2 b len[i] x }
  = let b = pure { hbucket car1 cdr1 t i } in let l = pure { len[i] } in
    htab_use vs v8 ty1 car1 cdr1 nil f cells free1 t len i;
    htab_frame vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 t len;
    if pure { ty1[b] = tPAIR } then begin
      entries_frame vs v8 ty1 car1 cdr1 ty2 car2 cdr2 nil f cells free1 free2 b l;
      assert { forall k. 0 <= k < l -> let e = car1[nth cdr1 b k] in vs[e] /\ 0 <= e < free1 /\ ty1[e] = tPAIR /\ e <> f } end
    else assert { l = 0 };
    assert { forall k. 0 <= k < l -> keyat car2 cdr2 b k = keyat car1 cdr1 b k };
    assert { forall x k. first_eq car1 cdr1 b l x k -> first_eq car2 cdr2 b l x k };
    assert { forall x k. first_eq car2 cdr2 b l x k -> first_eq car1 cdr1 b l x k }

  (* of the existing objects only the cdr of p changed, and is e *)
  predicate assigned (ty1 car1 cdr1 ty2 car2 cdr2: map int int) (free p e: int)
  axiom assigned_def: forall ty1 car1 cdr1 ty2 car2 cdr2 free p e. assigned ty1 car1 cdr1 ty2 car2 cdr2 free p e <->
    (p < free /\ cdr2[p] = e /\ forall a. a < free -> ty2[a] = ty1[a] /\ car2[a] = car1[a] /\ (a <> p -> cdr2[a] = cdr1[a]))

  (* neither the association list nor the table of globals has an entry for x *)
  predicate unbound (ty car cdr m: map int int) (m0 a n: int) (len: map int int) (x: int) =
    local_none ty car cdr m a n x
    /\ let t = globals_of car cdr m0 in let i = hidx m (cdr[x] + 16) (hsize cdr t) in no_eq car cdr (hbucket car cdr t i) len[i] x
end

module Stack
  use mem.Mem
  val ref g_R2 : int
  val ref g_R3 : int
  val ref g_stack_array : int
  val ref g_stack : int
  val ref g_STACK_SIZE : int
  predicate stack (v: map int bool) (p n: int) =
    0 < p /\ p + 8 * n < 9223372036854775807 /\ mod p 8 = 0 /\ 0 <= n <= 1000000000000 /\ forall a. p <= a < p + 8 * n -> mod (a - p) 8 = 0 -> v[a]
  (* the frame at index i holds the registers *)
  predicate frame (m: map int int) (p i r0 r1 r2 r3: int) =
    m[p + 8 * i] = r3 /\ m[p + 8 * (i+1)] = r2 /\ m[p + 8 * (i+2)] = r1 /\ m[p + 8 * (i+3)] = r0
end
