(* The kernel boundary: a trace of the last system call, and its effects on memory for brk *)
module Sys
  use mem.Mem
  val ref k_n : int    (* system calls made *)
  val ref k_nr : int
  val ref k_1 : int
  val ref k_2 : int
  val ref k_3 : int
  val ref k_4 : int
  val ref k_res : int  (* what the kernel returned *)
  function sysret (r: int) : int = if r < 0 then -1 else r
  function sysarg (a: int) : int = cast_s64 a
end
