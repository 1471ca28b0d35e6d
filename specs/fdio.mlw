(* Reading descriptors: what the kernel delivers, and the library's read buffers. *)
module Io
  use mem.Mem
  use mem.Str
  use env.Env
  use sys.Sys

  (* byte i of what descriptor fd delivers, and how many bytes the kernel has delivered (its position) *)
  function k_byte (fd i: int) : int
  axiom k_byte_range: forall fd i. -128 <= k_byte fd i <= 127
  val ref k_pos : map int int
  (* n bytes from position pos on are at buf *)
  predicate got (m: map int int) (fd pos buf n: int)
  axiom got_def: forall m fd pos buf n [got m fd pos buf n]. got m fd pos buf n <-> forall a. buf <= a < buf + n -> m[a] = k_byte fd (pos + (a - buf))
  (* the kernel's read, write and lseek *)
  val kernel_read () : unit requires { k_nr = 0 } writes { m8, k_pos }
    ensures { k_res <= k_3 /\ k_res <= 2147479552 }
    ensures { forall a. not (k_2 <= a < k_2 + k_res) -> m8[a] = (old m8)[a] }
    ensures { 0 <= k_res -> got m8 k_1 (old k_pos)[k_1] k_2 k_res }
    ensures { k_pos = if k_res < 0 then old k_pos else set (old k_pos) k_1 ((old k_pos)[k_1] + k_res) }
  (* descriptors with a position; a write goes to the position of the descriptor *)
  predicate seekable (fd: int)
  val ref k_wrote : int
  val kernel_write (fd r: int) : unit writes { k_pos, k_wrote }
    ensures { k_wrote = (old k_pos)[fd] }
    ensures { k_pos = if r < 0 \/ not seekable fd then old k_pos else set (old k_pos) fd ((old k_pos)[fd] + r) }
  val kernel_lseek () : unit requires { k_nr = 8 } writes { k_pos }
    ensures { 0 <= k_res -> k_3 = 0 -> k_res = k_2 }
    ensures { 0 <= k_res -> k_3 = 1 -> k_res = (old k_pos)[k_1] + k_2 }
    ensures { k_pos = if k_res < 0 then old k_pos else set (old k_pos) k_1 k_res }
    ensures { k_3 = 1 -> k_2 = 0 -> 0 <= k_res -> k_pos = old k_pos }
    ensures { k_3 = 1 -> seekable k_1 -> 0 <= (old k_pos)[k_1] + k_2 -> 0 <= k_res }
    ensures { 0 <= k_res -> seekable k_1 }

  (* the buffer of descriptor fd *)
  function cb (base fd: int) : int
  axiom cb_def: forall base fd [cb base fd]. cb base fd = base + 136 * fd
  predicate buf_ok (m8 m64: map int int) (v8 v64: map int bool) (kp: map int int) (base max fd: int) 
  axiom buf_ok_def: forall m8 m64 v8 v64 kp base max fd [buf_ok m8 m64 v8 v64 kp base max fd]. buf_ok m8 m64 v8 v64 kp base max fd <->
    (let b = cb base fd in v64[b] /\ range v8 (b + 8) 128 /\ 0 <= m64[b] <= max /\ got m8 fd (kp[fd] - m64[b]) (b + 8 + max - m64[b]) m64[b])
  predicate cache_ok (m8 m64: map int int) (v8 v64: map int bool) (kp: map int int) (base max: int) =
    0 < base /\ 0 <= max <= 128 /\ range v8 base 69632 /\ forall fd [cb base fd]. 0 <= fd < 512 -> buf_ok m8 m64 v8 v64 kp base max fd
  predicate io_ok (m8 m64: map int int) (v8 v64: map int bool) (kp: map int int) (base max: int) = base = 0 \/ cache_ok m8 m64 v8 v64 kp base max
  (* bytes buffered; where the reader is *)
  function left (m64: map int int) (base fd: int) : int = if base = 0 || fd < 0 || fd >= 512 then 0 else m64[cb base fd]
  function at_pos (kp m64: map int int) (base fd: int) : int
  axiom at_pos_def: forall kp m64 base fd [at_pos kp m64 base fd]. at_pos kp m64 base fd = kp[fd] - left m64 base fd
  predicate outside (base p n: int) = base = 0 \/ n <= 0 \/ p + n <= base \/ base + 69632 <= p

  (* more memory has become valid *)
  let ghost env_grow (m w: map int int) (v v' v6 v6': map int bool) (e n: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> v'[a]) /\ (forall a. v6[a] -> v6'[a]) } ensures { env_ok m w v' v6' e n }
  = slots_kept v6 v6' e n; let lemma one (k: int) : unit requires { 0 <= k < n } ensures { vstr m v' (ent w e k) } = assert { vstr m v (ent w e k) } in ()
  let ghost one_buf (m8 m64: map int int) (v8 v64: map int bool) (kp: map int int) (base max fd: int) : unit
    requires { cache_ok m8 m64 v8 v64 kp base max /\ 0 <= fd < 512 } ensures { buf_ok m8 m64 v8 v64 kp base max fd } = assert { cb base fd = base + 136 * fd }
  (* only the buffer of fd, and memory outside of the cache, has changed *)
  let ghost only (m8 m8' m64 m64': map int int) (v8 v8' v64 v64': map int bool) (kp kp': map int int) (base max fd: int) : unit
    requires { cache_ok m8 m64 v8 v64 kp base max /\ 0 <= fd < 512 /\ buf_ok m8' m64' v8' v64' kp' base max fd }
    requires { forall a. v8[a] -> v8'[a] } requires { forall a. v64[a] -> v64'[a] }
    requires { forall a. base <= a < base + 69632 -> not (cb base fd <= a < cb base fd + 136) -> m8'[a] = m8[a] }
    requires { forall a. base <= a < base + 69632 -> a <> cb base fd -> m64'[a] = m64[a] }
    requires { forall f. f <> fd -> kp'[f] = kp[f] }
    ensures { cache_ok m8' m64' v8' v64' kp' base max }
    ensures { forall f [at_pos kp' m64' base f]. f <> fd -> at_pos kp' m64' base f = at_pos kp m64 base f }
  = let lemma other (f: int) : unit requires { 0 <= f < 512 /\ f <> fd }
      ensures { buf_ok m8' m64' v8' v64' kp' base max f /\ m64'[cb base f] = m64[cb base f] }
    = let b = cb base f in let c = cb base fd in
      assert { buf_ok m8 m64 v8 v64 kp base max f };
      assert { b + 136 <= c \/ c + 136 <= b };
      assert { m64'[b] = m64[b] };
      let n = m64[b] in
      assert { forall a. b + 8 <= a < b + 136 -> m8'[a] = m8[a] };
      assert { got m8 f (kp[f] - n) (b + 8 + max - n) n };
      assert { got m8' f (kp'[f] - n) (b + 8 + max - n) n } in ()
  (* a fresh cache *)
  let ghost fresh (m8 m64: map int int) (v8 v64: map int bool) (kp: map int int) (base max: int) : unit
    requires { 0 < base /\ 0 <= max <= 128 /\ range v8 base 69632 /\ mod base 8 = 0 /\ (forall a. base <= a -> a + 8 <= base + 69632 -> mod a 8 = 0 -> v64[a]) }
    requires { forall a. base <= a -> a + 8 <= base + 69632 -> mod a 8 = 0 -> m64[a] = 0 }
    ensures { cache_ok m8 m64 v8 v64 kp base max }
    ensures { forall f [at_pos kp m64 base f]. at_pos kp m64 base f = kp[f] }
  = let lemma one (f: int) : unit requires { 0 <= f < 512 } ensures { buf_ok m8 m64 v8 v64 kp base max f /\ m64[cb base f] = 0 }
    = assert { mod (base + 8 * (17 * f)) 8 = 0 }; assert { cb base f = base + 8 * (17 * f) } in ()
  (* memory outside of the cache has changed *)
  let ghost kept (m8 m8' m64 m64': map int int) (v8 v8' v64 v64': map int bool) (kp: map int int) (base max: int) : unit
    requires { io_ok m8 m64 v8 v64 kp base max }
    requires { forall a. v8[a] -> v8'[a] } requires { forall a. v64[a] -> v64'[a] }
    requires { base <> 0 -> forall a. base <= a < base + 69632 -> m8'[a] = m8[a] }
    requires { base <> 0 -> forall a. base <= a < base + 69632 -> m64'[a] = m64[a] }
    ensures { io_ok m8' m64' v8' v64' kp base max }
    ensures { forall f [at_pos kp m64' base f]. at_pos kp m64' base f = at_pos kp m64 base f }
  = if base <> 0 then begin one_buf m8 m64 v8 v64 kp base max 0;
      assert { buf_ok m8' m64' v8' v64' kp base max 0 };
      only m8 m8' m64 m64' v8 v8' v64 v64' kp kp base max 0;
      assert { at_pos kp m64' base 0 = at_pos kp m64 base 0 } end

  (* a block that was valid before the cache existed *)
  let ghost old_block (v: map int bool) (base p n: int) : unit
    requires { range v p n /\ forall a. v[a] -> not (base <= a < base + 69632) } ensures { outside base p n }
  = if n > 0 then begin assert { p <= base < p + n -> v[base] }; assert { base <= p < base + 69632 -> v[p] } end
  let ghost got_none (m: map int int) (fd pos buf: int) : unit ensures { got m fd pos buf 0 } = ()
  let ghost got_join (m: map int int) (fd pos buf a b: int) : unit
    requires { 0 <= a /\ 0 <= b /\ got m fd pos buf a /\ got m fd (pos + a) (buf + a) b } ensures { got m fd pos buf (a + b) } 
  = let lemma one (x: int) : unit requires { buf <= x < buf + a + b } ensures { m[x] = k_byte fd (pos + (x - buf)) }
    = if x >= buf + a then assert { pos + a + (x - (buf + a)) = pos + (x - buf) } in ()
  let ghost got_kept (m m': map int int) (fd pos buf n: int) : unit
    requires { got m fd pos buf n /\ forall a. buf <= a < buf + n -> m'[a] = m[a] } ensures { got m' fd pos buf n } = ()
  let ghost got_moved (m m': map int int) (fd pos buf to_ n: int) : unit
    requires { got m fd pos buf n /\ forall a. to_ <= a < to_ + n -> m'[a] = m[buf + (a - to_)] } ensures { got m' fd pos to_ n }
  = let lemma one (x: int) : unit requires { to_ <= x < to_ + n } ensures { m'[x] = k_byte fd (pos + (x - to_)) } = assert { m[buf + (x - to_)] = k_byte fd (pos + (buf + (x - to_) - buf)) } in ()
  (* what was read is moved to the end of the buffer *)
  let ghost got_buf (m m': map int int) (fd pos q max n: int) : unit
    requires { 0 <= n <= max /\ got m fd (pos - n) q n /\ (n < max -> forall a. q + max - n <= a < q + max -> m'[a] = m[q + (a - (q + max - n))]) /\ (n = max -> forall a. q <= a < q + max -> m'[a] = m[a]) }
    ensures { got m' fd (pos - n) (q + max - n) n }
  = if n < max then got_moved m m' fd (pos - n) q (q + max - n) n else got_kept m m' fd (pos - n) q n
  (* one byte from the buffer to the reader's block *)
  let ghost got_one (m m': map int int) (fd pos q left max p d o: int) : unit
    requires { got m fd (pos - left) (q + max - left) left /\ 0 < left <= max /\ 0 <= d /\ got m fd o (p - d) d /\ o + d = pos - left }
    requires { m' = set m p m[q + max - left] /\ not (q <= p < q + max) }
    ensures { got m' fd (pos - (left - 1)) (q + max - (left - 1)) (left - 1) /\ got m' fd o (p - d) (d + 1) }
  = assert { m[q + max - left] = k_byte fd (pos - left + (q + max - left - (q + max - left))) };
    let lemma one (x: int) : unit requires { q + max - (left - 1) <= x < q + max } ensures { m'[x] = k_byte fd (pos - (left - 1) + (x - (q + max - (left - 1)))) }
    = assert { m[x] = k_byte fd (pos - left + (x - (q + max - left))) } in
    let lemma two (x: int) : unit requires { p - d <= x < p - d + (d + 1) } ensures { m'[x] = k_byte fd (o + (x - (p - d))) }
    = if x < p then assert { m[x] = k_byte fd (o + (x - (p - d))) } in ()

  exception Stop_
  let ghost env_read (m m' w w': map int int) (v v' v6 v6': map int bool) (e n: int) : unit
    requires { env_ok m w v v6 e n /\ (forall a. v[a] -> v'[a] /\ m'[a] = m[a]) /\ (forall a. v6[a] -> v6'[a] /\ w'[a] = w[a]) } ensures { env_ok m' w' v' v6' e n }
  = slots_kept v6 v6' e n;
    let lemma slot_same (k: int) : unit requires { 0 <= k <= n } ensures { ent w' e k = ent w e k } = slot v6 e n k in
    let lemma one (k: int) : unit requires { 0 <= k < n } ensures { vstr m' v' (ent w e k) } = assert { vstr m v (ent w e k) }; str_kept m m' v (ent w e k) in ()
  (* the push-back table: one int for each descriptor 0..512, negative if nothing is pushed back *)
  function ub (base fd: int) : int
  axiom ub_def: forall base fd [ub base fd]. ub base fd = base + 4 * fd
  predicate ung_ok (v32: map int bool) (base: int) = base = 0 \/ (0 < base /\ forall f [ub base f]. 0 <= f <= 512 -> v32[ub base f])
  function pushed (m32: map int int) (base fd: int) : int
  axiom pushed_def: forall m32 base fd [pushed m32 base fd]. pushed m32 base fd = if base = 0 || fd < 0 || fd > 512 then -1 else if m32[ub base fd] < 0 then -1 else m32[ub base fd]
  (* four bytes of -1 are the int -1 *)
  val minus_ones (p n: int) : unit requires { forall a. p <= a < p + 4 * n -> m8[a] = -1 } writes { m32 }
    ensures { forall k. 0 <= k < n -> m32[p + 4 * k] = -1 }
    ensures { forall a. not (p <= a < p + 4 * n) -> m32[a] = (old m32)[a] }

  (* the reader's view: characters seen so far; character i yet to come is the pushed back one, if there is one, or comes from the file *)
  function seen (kp m64: map int int) (base: int) (m32: map int int) (ung fd: int) : int
  axiom seen_def: forall kp m64 base m32 ung fd [seen kp m64 base m32 ung fd]. seen kp m64 base m32 ung fd = at_pos kp m64 base fd - (if pushed m32 ung fd < 0 then 0 else 1)
  function taken (kp m64: map int int) (base: int) (m32: map int int) (ung: int) (kp' m64': map int int) (base': int) (m32': map int int) (ung' fd: int) : int
    = seen kp' m64' base' m32' ung' fd - seen kp m64 base m32 ung fd
  function nxt (fd pos p i: int) : int
  axiom nxt_def: forall fd pos p i [nxt fd pos p i]. nxt fd pos p i = if p < 0 then k_byte fd (pos + i) else if i = 0 then cast_s8 p else k_byte fd (pos + i - 1)
  predicate chars (m: map int int) (fd pos p s n: int)
  axiom chars_def: forall m fd pos p s n [chars m fd pos p s n]. chars m fd pos p s n <-> forall a. s <= a < s + n -> m[a] = nxt fd pos p (a - s)
  let ghost chars_one (m m': map int int) (fd pos p s n q: int) : unit
    requires { 0 <= n /\ chars m fd pos p s n /\ q = s + n /\ m'[q] = nxt fd pos p n /\ forall a. a <> q -> m'[a] = m[a] } ensures { chars m' fd pos p s (n + 1) }
  = let lemma one (x: int) : unit requires { s <= x < s + (n + 1) } ensures { m'[x] = nxt fd pos p (x - s) } = if x < s + n then assert { m[x] = nxt fd pos p (x - s) } in ()
  (* the environment's strings do not overlap the block *)
  predicate apart (m w: map int int) (e n s c: int) = forall k [ent w e k]. 0 <= k < n -> ent w e k + slen m (ent w e k) < s \/ s + c <= ent w e k
  let ghost env_block (m m' w w': map int int) (v v' v6 v6': map int bool) (e n s c: int) : unit
    requires { env_ok m w v v6 e n /\ apart m w e n s c /\ (forall a. v[a] -> v'[a]) /\ (forall a. v[a] -> not (s <= a < s + c) -> m'[a] = m[a]) /\ (forall a. v6[a] -> v6'[a] /\ w'[a] = w[a]) }
    ensures { env_ok m' w' v' v6' e n }
  = slots_kept v6 v6' e n;
    let lemma slot_same (k: int) : unit requires { 0 <= k <= n } ensures { ent w' e k = ent w e k } = slot v6 e n k in
    let lemma one (k: int) : unit requires { 0 <= k < n } ensures { vstr m' v' (ent w e k) }
    = let p = ent w e k in assert { vstr m v p }; let l = slen m p in
      assert { forall a. p <= a < p + l + 1 -> v[a] /\ not (s <= a < s + c) };
      assert { forall a. p <= a < p + l + 1 -> m'[a] = m[a] };
      slen_is m' p l in ()
  let ghost chars_kept (m m': map int int) (fd pos p s n: int) : unit
    requires { chars m fd pos p s n /\ forall a. s <= a < s + n -> m'[a] = m[a] } ensures { chars m' fd pos p s n } = ()
  let ghost chars_got (m: map int int) (fd pos p s k r: int) : unit
    requires { 0 <= k <= 1 /\ 0 <= r /\ (k = 0 -> p < 0) /\ (k = 1 -> 0 <= p) /\ chars m fd pos p s k /\ got m fd pos (s + k) r } ensures { chars m fd pos p s (k + r) }
  = let lemma one (x: int) : unit requires { s <= x < s + (k + r) } ensures { m[x] = nxt fd pos p (x - s) }
    = if x < s + k then assert { m[x] = nxt fd pos p (x - s) } else assert { m[x] = k_byte fd (pos + (x - (s + k))) } in ()
end
