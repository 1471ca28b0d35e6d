# ---------------------------------------------------------------- arithmetic
# the argument list: n objects
macro ARGS
  @ARENA
  uses scm.List scm.Arith
  ghost n_: int
  requires[list] 0 <= n_ <= 1000000000000000 /\ lst f_type f_cdr cell_nil g_cells g_free x n_ /\ vs[x]
  requires[elements] forall k. 0 <= k < n_ -> vs[f_car[nth f_cdr x k]]
  reads cell_nil cell_symbol_not_a_number
endmacro
macro PRED
  @ARGS
  requires cell_t <> cell_f
  writes g_free f_type f_car f_cdr
  pre let ghost ref i_ = 0 in
  @SAME
  raises[only-for-no-number] Stop: exists k. 0 <= k < n_ /\ (old f_type)[(old f_car)[nth (old f_cdr) x k]] <> tNUMBER
  raises Full: false
endmacro
macro NUMRESULT
  @ARGS
  writes g_free f_type f_car f_cdr
  opt wrap
  ensures[checked] forall k. 0 <= k < n_ -> (old f_type)[(old f_car)[nth (old f_cdr) x k]] = tNUMBER
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @ONECELL
  ensures[number] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- f_cdr[result]]
  pre let ghost ref i_ = 0 in
endmacro
macro NOTNUM
  raises[only-for-no-number] Stop: exists k. 0 <= k < n_ /\ (old f_type)[(old f_car)[nth (old f_cdr) x k]] <> tNUMBER
  raises Full: true
  @STOPKEPT
endmacro
macro KEEPALL
    inv[unchanged] f_type = f_type_in /\ f_car = f_car_in /\ f_cdr = f_cdr_in /\ g_free = g_free_in
endmacro

macro COMPARE
  @PRED
  ensures[holds] result = cell_t -> forall k. 0 <= k < n_ - 1 -> f_cdr[f_car[nth f_cdr x k]] %1 f_cdr[f_car[nth f_cdr x (k + 1)]]
  ensures[fails] result <> cell_t -> result = cell_f /\ exists k. 0 <= k < n_ - 1 /\ not (f_cdr[f_car[nth f_cdr x k]] %1 f_cdr[f_car[nth f_cdr x (k + 1)]])
  pre assert { nth f_cdr x 0 = x /\ nth f_cdr x 1 = f_cdr[x] }
  pre let ghost x_in = x in
  loop
    @KEEPALL
    inv[position] 0 <= i_ < n_ /\ x = nth f_cdr x_0 (i_ + 1) /\ n = f_cdr[f_car[nth f_cdr x_0 i_]]
    inv[so-far] forall k. 0 <= k < i_ -> f_cdr[f_car[nth f_cdr x_0 k]] %1 f_cdr[f_car[nth f_cdr x_0 (k + 1)]]
    start nth_step f_cdr x_0 (i_ + 1)
    end i_ <- i_ + 1
    variant n_ - i_
endmacro
fn greater_p
  file src/math.c
  params x
  @COMPARE >
fn less_p
  file src/math.c
  params x
  @COMPARE <
fn is_p
  file src/math.c
  params x
  @PRED
  ensures[holds] result = cell_t -> forall k. 0 <= k < n_ -> f_cdr[f_car[nth f_cdr x k]] = f_cdr[f_car[nth f_cdr x 0]]
  ensures[fails] result <> cell_t -> result = cell_f /\ exists k. 0 <= k < n_ /\ f_cdr[f_car[nth f_cdr x k]] <> f_cdr[f_car[nth f_cdr x 0]]
  pre assert { nth f_cdr x 0 = x /\ nth f_cdr x 1 = f_cdr[x] }
  loop
    @KEEPALL
    inv[position] 0 <= i_ < n_ /\ x = nth f_cdr x_0 (i_ + 1) /\ n = f_cdr[f_car[nth f_cdr x_0 0]]
    inv[so-far] forall k. 0 <= k <= i_ -> f_cdr[f_car[nth f_cdr x_0 k]] = n
    start nth_step f_cdr x_0 (i_ + 1)
    end i_ <- i_ + 1
    variant n_ - i_

fn plus
  file src/math.c
  params x
  @NUMRESULT
  ensures[sum] in_s64 (sum (old f_car) (old f_cdr) x n_) -> f_cdr[result] = sum (old f_car) (old f_cdr) x n_
  @NOTNUM
  pre let ghost ref q_ = 0 in
  loop
    @KEEPALL
    inv[position] 0 <= i_ <= n_ /\ x = nth f_cdr x_0 i_
    inv[checked] forall k. 0 <= k < i_ -> f_type[f_car[nth f_cdr x_0 k]] = tNUMBER
    inv[sum] n = sum f_car f_cdr x_0 i_ - 18446744073709551616 * q_ /\ in_s64 n
    start nth_step f_cdr x_0 i_
    start sum_step f_car f_cdr x_0 i_
    end wrap_turns (pure { (n at L0) + elt f_car f_cdr x_0 i_ })
    end q_ <- q_ + pure { turns ((n at L0) + elt f_car f_cdr x_0 i_) }
    end i_ <- i_ + 1
    variant n_ - i_

fn minus
  file src/math.c
  params x
  @NUMRESULT
  reads cell_symbol_wrong_number_of_args
  ensures[arguments] 0 < n_
  ensures[difference] n_ = 1 -> in_s64 (- elt (old f_car) (old f_cdr) x 0) -> f_cdr[result] = - elt (old f_car) (old f_cdr) x 0
  ensures[difference] n_ > 1 -> in_s64 (2 * elt (old f_car) (old f_cdr) x 0 - sum (old f_car) (old f_cdr) x n_) -> f_cdr[result] = 2 * elt (old f_car) (old f_cdr) x 0 - sum (old f_car) (old f_cdr) x n_
  raises[only-for-no-number] Stop: n_ = 0 \/ exists k. 0 <= k < n_ /\ (old f_type)[(old f_car)[nth (old f_cdr) x k]] <> tNUMBER
  raises Full: true
  @STOPKEPT
  pre let ghost ref q_ = 0 in
  pre assert { nth f_cdr x 0 = x /\ nth f_cdr x 1 = f_cdr[x] }
  pre sum_step f_car f_cdr x 0
  loop
    @KEEPALL
    inv[position] 0 <= i_ < n_ /\ x = nth f_cdr x_0 (i_ + 1)
    inv[checked] forall k. 0 <= k <= i_ -> f_type[f_car[nth f_cdr x_0 k]] = tNUMBER
    inv[single] n_ = 1 -> n = cast_s64 (- elt f_car f_cdr x_0 0)
    inv[difference] n_ > 1 -> n = 2 * elt f_car f_cdr x_0 0 - sum f_car f_cdr x_0 (i_ + 1) - 18446744073709551616 * q_
    inv in_s64 n
    start nth_step f_cdr x_0 (i_ + 1)
    start sum_step f_car f_cdr x_0 (i_ + 1)
    end wrap_turns (pure { (n at L0) - elt f_car f_cdr x_0 (i_ + 1) })
    end q_ <- q_ + pure { turns ((n at L0) - elt f_car f_cdr x_0 (i_ + 1)) }
    end i_ <- i_ + 1
    variant n_ - i_

fn multiply
  file src/math.c
  params x
  @NUMRESULT
  ensures[product] in_s64 (prod (old f_car) (old f_cdr) x n_) -> f_cdr[result] = prod (old f_car) (old f_cdr) x n_
  @NOTNUM
  pre let ghost ref q_ = 0 in
  loop
    @KEEPALL
    inv[position] 0 <= i_ <= n_ /\ x = nth f_cdr x_0 i_
    inv[checked] forall k. 0 <= k < i_ -> f_type[f_car[nth f_cdr x_0 k]] = tNUMBER
    inv[product] n = prod f_car f_cdr x_0 i_ - 18446744073709551616 * q_ /\ in_s64 n
    start nth_step f_cdr x_0 i_
    start prod_step f_car f_cdr x_0 i_
    end let w_ = pure { (n at L0) * elt f_car f_cdr x_0 i_ } in wrap_turns w_
    end mul_off (pure { n at L0 }) (pure { prod f_car f_cdr x_0 i_ }) q_ (pure { elt f_car f_cdr x_0 i_ })
    end q_ <- q_ * pure { elt f_car f_cdr x_0 i_ } + pure { turns ((n at L0) * elt f_car f_cdr x_0 i_) }
    end i_ <- i_ + 1
    variant n_ - i_

macro BITS
  @NUMRESULT
  ensures[bits] f_cdr[result] = %1 (old f_car) (old f_cdr) x n_
  @NOTNUM
  loop
    @KEEPALL
    inv[position] 0 <= i_ <= n_ /\ x = nth f_cdr x_0 i_
    inv[checked] forall k. 0 <= k < i_ -> f_type[f_car[nth f_cdr x_0 k]] = tNUMBER
    inv[bits] n = %1 f_car f_cdr x_0 i_
    start nth_step f_cdr x_0 i_
    start %2 f_car f_cdr x_0 i_
    end i_ <- i_ + 1
    variant n_ - i_
endmacro
fn logand
  file src/math.c
  params x
  @BITS fand; fand_step
fn logior
  file src/math.c
  params x
  @BITS for_; for_step
fn logxor
  file src/math.c
  params x
  @BITS fxor; fxor_step

fn lognot
  file src/math.c
  params x
  @ARENA
  requires vs[x]
  writes g_free f_type f_car f_cdr
  ensures[checked] (old f_type)[x] = tNUMBER
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @ONECELL
  ensures[number] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- - (old f_cdr)[x] - 1]
  raises[only-for-no-number] Stop: (old f_type)[x] <> tNUMBER
  raises Full: true

fn divide
  file src/math.c
  params x
  @NUMRESULT
  ensures[nonzero] forall k. 1 <= k < n_ -> elt (old f_car) (old f_cdr) x k <> 0
  ensures[quotient] in_s64 (quot (old f_car) (old f_cdr) x n_) -> f_cdr[result] = quot (old f_car) (old f_cdr) x n_
  raises[only-for-bad-arguments] Stop: exists k. 0 <= k < n_ /\ ((old f_type)[(old f_car)[nth (old f_cdr) x k]] <> tNUMBER \/ k > 0 /\ elt (old f_car) (old f_cdr) x k = 0)
  raises Full: true
  writes m8
  pre assert { nth f_cdr x 0 = x /\ nth f_cdr x 1 = f_cdr[x] }
  loop
    @KEEPALL
    inv[position] (n_ = 0 /\ i_ = 0 /\ x = x_0) \/ (0 <= i_ < n_ /\ x = nth f_cdr x_0 (i_ + 1))
    inv[checked] n_ > 0 -> forall k. 0 <= k <= i_ -> f_type[f_car[nth f_cdr x_0 k]] = tNUMBER
    inv[nonzero] forall k. 1 <= k <= i_ -> elt f_car f_cdr x_0 k <> 0
    inv[sign] sign_p = 0 \/ sign_p = 1
    inv[magnitude] quot f_car f_cdr x_0 (if n_ = 0 then 0 else i_ + 1) = (if sign_p = 1 then - u else u) /\ 0 <= u <= 9223372036854775808
    start nth_step f_cdr x_0 (i_ + 1)
    start quot_step f_car f_cdr x_0 (i_ + 1)
    end cdiv_abs (pure { quot f_car f_cdr x_0 (i_ + 1) }) (pure { elt f_car f_cdr x_0 (i_ + 1) })
    end i_ <- i_ + 1
    variant n_ - i_

fn modulo
  file src/math.c
  params a b
  @ARENA
  uses scm.Arith
  requires vs[a] /\ vs[b]
  opt wrap
  writes g_free f_type f_car f_cdr m8
  ensures[checked] (old f_type)[a] = tNUMBER /\ (old f_type)[b] = tNUMBER /\ (old f_cdr)[b] <> 0
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @ONECELL
  ensures[number] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- f_cdr[result]]
  ensures[sign] if (old f_cdr)[b] > 0 then 0 <= f_cdr[result] < (old f_cdr)[b] else (old f_cdr)[b] < f_cdr[result] <= 0
  ensures[congruent] mod ((old f_cdr)[a] - f_cdr[result]) (old f_cdr)[b] = 0
  raises[only-for-bad-arguments] Stop: (old f_type)[a] <> tNUMBER \/ (old f_type)[b] <> tNUMBER \/ (old f_cdr)[b] = 0
  raises Full: true
  post let a_ = pure { f_cdr_in[a] } in let b_ = pure { f_cdr_in[b] } in modulo_congruent a_ b_; assert { w = abs b_ }; let m_ = pure { mod (abs a_) (abs b_) } in assert { 0 <= m_ < abs b_ }; assert { u = if m_ = 0 then 0 else if (a_ < 0) = (b_ < 0) then m_ else abs b_ - m_ }; assert { n = if b_ < 0 then - u else u }; assert { f_cdr[result_] = modulo_of a_ b_ }

fn ash
  file src/math.c
  params n count
  @ARENA
  uses scm.Arith
  requires vs[n] /\ vs[count]
  opt wrap
  writes g_free f_type f_car f_cdr
  ensures[checked] (old f_type)[n] = tNUMBER /\ (old f_type)[count] = tNUMBER
  ensures[arena] arena vs v8 g_cells g_free g_ARENA_SIZE
  @ONECELL
  ensures[number] f_type = (old f_type)[result <- tNUMBER] /\ f_car = (old f_car)[result <- 0] /\ f_cdr = (old f_cdr)[result <- f_cdr[result]]
  ensures[left] (old f_cdr)[count] >= 0 -> in_s64 ((old f_cdr)[n] * pow2 (old f_cdr)[count]) -> f_cdr[result] = (old f_cdr)[n] * pow2 (old f_cdr)[count]
  ensures[right] (old f_cdr)[count] < 0 -> f_cdr[result] = div (old f_cdr)[n] (pow2 (- (old f_cdr)[count]))
  raises[only-for-no-number] Stop: (old f_type)[n] <> tNUMBER \/ (old f_type)[count] <> tNUMBER
  raises Full: true
  pre pow2_63 ()
  post let n_ = pure { f_cdr_in[n_0] } in let c_ = pure { f_cdr_in[count] } in if pure { c_ <= -63 } then shr_far n_ (- c_) else if pure { c_ >= 64 /\ in_s64 (n_ * pow2 c_) } then shl_far n_ c_
