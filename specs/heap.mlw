(* The program break, as the kernel keeps it *)
module Heap
  use mem.Mem
  use sys.Sys
  val ref kbrk : int            (* current break: end of the memory obtained *)
  val constant hs : int         (* where the heap starts *)
  axiom hs_pos: 0 < hs

  (* the effect of system call brk on memory (assumed, see brk(2)): the break
     moves exactly if the call returns the address asked for; memory below it
     becomes usable, zero-filled, and was not in use before *)
  val kernel_brk () : unit
    requires { k_nr = 12 }
    requires { k_1 = 0 \/ kbrk <= k_1 }
    writes { kbrk, v8, v32, v64 }
    ensures { hs <= kbrk <= 140737488355328 }
    ensures { k_res = kbrk }
    ensures { kbrk = k_1 \/ (kbrk = old kbrk /\ v8 = old v8 /\ v32 = old v32 /\ v64 = old v64) }
    ensures { kbrk = k_1 -> forall a. v8[a] <-> ((old v8)[a] \/ old kbrk <= a < kbrk) }
    ensures { kbrk = k_1 -> forall a. v64[a] <-> ((old v64)[a] \/ (old kbrk <= a /\ a + 8 <= kbrk /\ mod a 8 = 0)) }
    ensures { kbrk = k_1 -> forall a. v32[a] <-> ((old v32)[a] \/ (old kbrk <= a /\ a + 4 <= kbrk /\ mod a 4 = 0)) }
    ensures { forall a. old kbrk <= a < kbrk -> not (old v8)[a] /\ not (old v32)[a] /\ not (old v64)[a] /\ m8[a] = 0 /\ m32[a] = 0 /\ m64[a] = 0 }

  (* state between calls of the allocator: cur = 0 before the first *)
  predicate heap_ok (cur k: int) (v: map int bool) =
    (cur = 0 \/ cur = k \/ (k <= cur <= k + 7 /\ mod cur 8 = 0)) /\ hs <= k <= 140737488355328 /\ forall a. hs <= a < k -> v[a]
end
