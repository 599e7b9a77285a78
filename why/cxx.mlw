(* The C++ built-in types and the parts of the standard library that the extraction uses.
   Every `axiom` and every body-less `val` here is part of the trusted base (semantics of the
   C++ language and of libstdc++), reported as such in the evidence. *)
module Cxx
  use export int.Int
  use export int.MinMax
  use export int.Abs
  use export real.RealInfix
  use export real.FromInt
  use real.Truncate as Trunc
  use export real.ExpLog
  use export real.Square
  use int.ComputerDivision as CD

  exception CxxThrow

  (* ---- finite sequences (std::vector, std::string, std::deque) *)
  type seq 'a
  val function length (s: seq 'a) : int
  axiom length_nonneg : forall s: seq 'a [length s]. 0 <= length s
  val function ([]) (s: seq 'a) (i: int) : 'a requires { [@expl:index in bounds] 0 <= i < length s }
  predicate (==) (s t: seq 'a) = length s = length t /\ forall i: int. 0 <= i < length s -> s[i] = t[i]
  axiom seq_ext : forall s t: seq 'a [s == t]. s == t -> s = t
  val function empty : seq 'a
  axiom empty_len : length (empty: seq 'a) = 0
  axiom empty_is : forall s: seq 'a [length s]. length s = 0 -> s = empty
  val function set (s: seq 'a) (i: int) (v: 'a) : seq 'a requires { [@expl:index in bounds] 0 <= i < length s }
  axiom set_len : forall s: seq 'a, i: int, v: 'a [set s i v]. 0 <= i < length s -> length (set s i v) = length s
  axiom set_get : forall s: seq 'a, i: int, v: 'a, j: int [(set s i v)[j]]. 0 <= i < length s -> 0 <= j < length s -> (set s i v)[j] = if j = i then v else s[j]
  axiom set_get2 : forall s: seq 'a, i: int, v: 'a, j: int [set s i v, s[j]]. 0 <= i < length s -> 0 <= j < length s -> (set s i v)[j] = if j = i then v else s[j]
  val function singleton (v: 'a) : seq 'a
  axiom singleton_def : forall v: 'a [singleton v]. length (singleton v) = 1 /\ (singleton v)[0] = v
  val function snoc (s: seq 'a) (v: 'a) : seq 'a
  axiom snoc_len : forall s: seq 'a, v: 'a [snoc s v]. length (snoc s v) = length s + 1 /\ (snoc s v)[length s] = v
  axiom snoc_get : forall s: seq 'a, v: 'a, i: int [(snoc s v)[i]]. 0 <= i <= length s -> (snoc s v)[i] = if i = length s then v else s[i]
  axiom snoc_get2 : forall s: seq 'a, v: 'a, i: int [snoc s v, s[i]]. 0 <= i < length s -> (snoc s v)[i] = s[i]
  val function cons (v: 'a) (s: seq 'a) : seq 'a
  axiom cons_len : forall s: seq 'a, v: 'a [cons v s]. length (cons v s) = length s + 1
  axiom cons_get : forall s: seq 'a, v: 'a, i: int [(cons v s)[i]]. 0 <= i <= length s -> (cons v s)[i] = if i = 0 then v else s[i-1]
  val function (++) (s t: seq 'a) : seq 'a
  axiom app_len : forall s t: seq 'a [s ++ t]. length (s ++ t) = length s + length t
  axiom app_get : forall s t: seq 'a, i: int [(s ++ t)[i]]. 0 <= i < length s + length t -> (s ++ t)[i] = if i < length s then s[i] else t[i - length s]
  val function ([..]) (s: seq 'a) (i j: int) : seq 'a requires { [@expl:range in bounds] 0 <= i <= j <= length s }
  axiom slice_len : forall s: seq 'a, i j: int [s[i .. j]]. 0 <= i <= j <= length s -> length (s[i .. j]) = j - i
  axiom slice_get : forall s: seq 'a, i j k: int [(s[i .. j])[k]]. 0 <= i <= j <= length s -> 0 <= k < j - i -> (s[i .. j])[k] = s[i + k]

  (* ---- machine integers as mathematical integers *)
  let function to_u (x: int) : int requires { [@expl:signed to unsigned conversion] x >= 0 } = x
  let function usub (x y: int) : int requires { [@expl:unsigned subtraction does not wrap] x >= y } = x - y
  val function narrow (x: int) : int
    ensures { (-128 <= x <= 127) -> result = x }
  val function uchar_of (x: int) : int ensures { result = if x < 0 then x + 256 else x }
  val function cdiv (x y: int) : int requires { [@expl:division by zero] y <> 0 } ensures { result = CD.div x y }
  val function cmod (x y: int) : int requires { [@expl:division by zero] y <> 0 } ensures { result = CD.mod x y }
  axiom cdiv_pos : forall x y. x >= 0 /\ y > 0 -> cdiv x y * y <= x < cdiv x y * y + y /\ 0 <= cdiv x y <= x
  axiom cdiv_is : forall x y. y <> 0 -> cdiv x y = CD.div x y
  axiom cmod_is : forall x y. y <> 0 -> cmod x y = CD.mod x y
  axiom cmod_pos : forall x y. x >= 0 /\ y > 0 -> 0 <= cmod x y < y /\ x = cdiv x y * y + cmod x y
  val constant npos : int
  axiom npos_val : npos = 18446744073709551615
  val constant int_max : int
  axiom int_max_val : int_max >= 2147483647
  val constant int_min : int
  axiom int_min_val : int_min <= -2147483648
  val function abs_int (x: int) : int ensures { result = if x >= 0 then x else -x }
  axiom abs_int_def : forall x. abs_int x = if x >= 0 then x else -x
  let function cxx_max_int (x y: int) : int = if x < y then y else x
  let function cxx_min_int (x y: int) : int = if y < x then y else x
  val function shl (x y: int) : int
  val function shr (x y: int) : int
  val function bitand (x y: int) : int
  val function bitor (x y: int) : int
  val function bitxor (x y: int) : int
  let function bool_eq (x y: bool) : bool = (x && y) || (not x && not y)
  let function bool_ne (x y: bool) : bool = (x && not y) || (not x && y)
  val c_rand () : int ensures { result >= 0 }

  (* ---- floating point as mathematical reals *)
  val real_eq (x y: real) : bool ensures { result <-> x = y }
  val real_ne (x y: real) : bool ensures { result <-> x <> y }
  val of_int (x: int) : real ensures { result = from_int x }
  (* the quotient; kept abstract so that equal quotients are equal by congruence *)
  function quo (x y: real) : real
  val real_div (x y: real) : real ensures { result = quo x y }
  axiom quo_pos : forall x y: real [quo x y]. y >. 0.0 -> (quo x y >=. 0.0 <-> x >=. 0.0) /\ (quo x y >. 0.0 <-> x >. 0.0) /\ (quo x y <=. 1.0 <-> x <=. y) /\ (quo x y <. 1.0 <-> x <. y)
  axiom quo_zero : forall y: real. y <> 0.0 -> quo 0.0 y = 0.0
  axiom quo_one : forall x: real. quo x 1.0 = x
  val ghost quo_is (x y: real) : unit requires { y <> 0.0 } ensures { quo x y = x /. y /\ quo x y *. y = x }
  let function cxx_max_real (x y: real) : real = if x <. y then y else x
  let function cxx_min_real (x y: real) : real = if y <. x then y else x
  val function abs_real (x: real) : real ensures { result = if x >=. 0.0 then x else -. x }
  axiom abs_real_def : forall x. abs_real x = if x >=. 0.0 then x else -. x
  val real_trunc (x: real) : int ensures { result = Trunc.truncate x }
  axiom exp_pos : forall x: real. exp x >. 0.0
  axiom exp_mono : forall x y: real. x <=. y -> exp x <=. exp y
  axiom log_mono : forall x y: real. 0.0 <. x <=. y -> log x <=. log y
  val m_exp (x: real) : real ensures { result = exp x }
  val m_log (x: real) : real ensures { result = log x }
  function pow (x y: real) : real
  axiom pow_unit : forall x y: real [pow x y]. 0.0 <=. x <=. 1.0 -> 0.0 <=. y -> 0.0 <=. pow x y <=. 1.0
  axiom pow_one : forall y: real. pow 1.0 y = 1.0
  val m_pow (x y: real) : real ensures { result = pow x y }
  val m_sqrt (x: real) : real ensures { x >=. 0.0 -> result = sqrt x }
  val constant real_max : real
  val constant real_inf : real
  val constant real_lowest : real
  val constant real_minpos : real
  axiom real_lowest_def : real_lowest = -. real_max
  axiom real_max_pos : real_max >. 1e30

  (* ---- std::pair *)
  type pair 'a 'b
  val function p1 (p: pair 'a 'b) : 'a
  val function p2 (p: pair 'a 'b) : 'b
  val function mkp (a: 'a) (b: 'b) : pair 'a 'b
  axiom p1_mk : forall a: 'a, b: 'b [mkp a b]. p1 (mkp a b) = a
  axiom p2_mk : forall a: 'a, b: 'b [mkp a b]. p2 (mkp a b) = b
  axiom mk_p : forall p: pair 'a 'b. mkp (p1 p) (p2 p) = p

  val poly_eq (x y: 'a) : bool ensures { result <-> x = y }

  (* ---- heap maps *)
  val ref nextptr : int
  type heap 'a
  val function hget (h: heap 'a) (p: int) : 'a
    requires { [@expl:null dereference] p <> 0 }
  val function hset (h: heap 'a) (p: int) (v: 'a) : heap 'a
    requires { [@expl:null dereference] p <> 0 }
  axiom hget_set : forall h: heap 'a, p q: int, v: 'a [hget (hset h p v) q]. hget (hset h p v) q = if q = p then v else hget h q

  (* ---- std::vector / std::string / std::deque *)
  val function seq_fill (n: int) (v: 'a) : seq 'a
    requires { [@expl:container size] n >= 0 }
  axiom seq_fill_len : forall n: int, v: 'a [length (seq_fill n v)]. n >= 0 -> length (seq_fill n v) = n
  axiom seq_fill_get : forall n: int, v: 'a, i: int [(seq_fill n v)[i]]. 0 <= i < n -> (seq_fill n v)[i] = v
  val function seq_resize (s: seq 'a) (n: int) (v: 'a) : seq 'a
    requires { [@expl:container size] n >= 0 }
  axiom seq_resize_len : forall s: seq 'a, n: int, v: 'a. n >= 0 -> length (seq_resize s n v) = n
  axiom seq_resize_get : forall s: seq 'a, n: int, v: 'a, i: int. 0 <= i < n ->
    (seq_resize s n v)[i] = if i < length s then s[i] else v
  let function seq_pop_back (s: seq 'a) : seq 'a
    requires { [@expl:pop on empty container] length s > 0 } = s[0 .. length s - 1]
  let function seq_pop_front (s: seq 'a) : seq 'a
    requires { [@expl:pop on empty container] length s > 0 } = s[1 .. length s]
  val function seq_insert (s: seq 'a) (p: int) (v: 'a) : seq 'a
    requires { [@expl:insert position] 0 <= p <= length s }
  axiom seq_insert_len : forall s: seq 'a, p: int, v: 'a [seq_insert s p v]. 0 <= p <= length s -> length (seq_insert s p v) = length s + 1
  axiom seq_insert_get : forall s: seq 'a, p: int, v: 'a, i: int [(seq_insert s p v)[i]]. 0 <= p <= length s -> 0 <= i <= length s ->
    (seq_insert s p v)[i] = if i < p then s[i] else if i = p then v else s[i-1]
  val function seq_insert_seq (s: seq 'a) (p: int) (v: seq 'a) : seq 'a
    requires { [@expl:insert position] 0 <= p <= length s }
  axiom seq_insert_seq_len : forall s: seq 'a, p: int, v: seq 'a [seq_insert_seq s p v]. 0 <= p <= length s -> length (seq_insert_seq s p v) = length s + length v
  axiom seq_insert_seq_get : forall s: seq 'a, p: int, v: seq 'a, i: int [(seq_insert_seq s p v)[i]]. 0 <= p <= length s -> 0 <= i < length s + length v ->
    (seq_insert_seq s p v)[i] = if i < p then s[i] else if i < p + length v then v[i-p] else s[i - length v]
  val function seq_erase (s: seq 'a) (p: int) : seq 'a
    requires { [@expl:erase position] 0 <= p < length s }
  axiom seq_erase_len : forall s: seq 'a, p: int [seq_erase s p]. 0 <= p < length s -> length (seq_erase s p) = length s - 1
  axiom seq_erase_get : forall s: seq 'a, p i: int [(seq_erase s p)[i]]. 0 <= p < length s -> 0 <= i < length s - 1 ->
    (seq_erase s p)[i] = if i < p then s[i] else s[i+1]
  val function seq_erase_range (s: seq 'a) (p q: int) : seq 'a
    requires { [@expl:erase range] 0 <= p <= q <= length s }
  axiom seq_erase_range_len : forall s: seq 'a, p q: int [seq_erase_range s p q]. 0 <= p <= q <= length s -> length (seq_erase_range s p q) = length s - (q - p)
  axiom seq_erase_range_get : forall s: seq 'a, p q i: int [(seq_erase_range s p q)[i]]. 0 <= p <= q <= length s -> 0 <= i < length s - (q - p) ->
    (seq_erase_range s p q)[i] = if i < p then s[i] else s[i+(q-p)]
  val function seq_reverse (s: seq 'a) : seq 'a
  axiom seq_reverse_len : forall s: seq 'a. length (seq_reverse s) = length s
  axiom seq_reverse_get : forall s: seq 'a, i: int. 0 <= i < length s -> (seq_reverse s)[i] = s[length s - 1 - i]
  val function seq_find_in (s: seq 'a) (i j: int) (x: 'a) : int
    requires { [@expl:iterator range] 0 <= i <= j <= length s }
  axiom seq_find_in_def : forall s: seq 'a, i j: int, x: 'a. 0 <= i <= j <= length s ->
    let r = seq_find_in s i j x in i <= r <= j /\ (r < j -> s[r] = x) /\ (forall k. i <= k < r -> s[k] <> x)
  val function seq_acc_int (s: seq int) (i j: int) (x: int) : int
  val function seq_acc_real (s: seq real) (i j: int) (x: real) : real

  (* number of occurrences, and permutations *)
  function occ (x: 'a) (s: seq 'a) (i j: int) : int
  axiom occ_empty : forall x: 'a, s: seq 'a, i j: int. i >= j -> occ x s i j = 0
  axiom occ_step : forall x: 'a, s: seq 'a, i j: int. i < j -> occ x s i j = occ x s i (j-1) + (if s[j-1] = x then 1 else 0)
  predicate perm (s t: seq 'a) = length s = length t /\ (forall x: 'a. occ x s 0 (length s) = occ x t 0 (length t))
  axiom perm_elem : forall s t: seq 'a. perm s t -> forall i. 0 <= i < length s -> exists j. 0 <= j < length t /\ t[j] = s[i]
  axiom perm_elem2 : forall s t: seq 'a. perm s t -> forall i. 0 <= i < length t -> exists j. 0 <= j < length s /\ s[j] = t[i]

  (* order on elements *)
  predicate lt_int (x y: int) = x < y
  predicate lt_real (x y: real) = x <. y
  val function seq_sort_int (s: seq int) : seq int
    ensures { perm s result /\ forall i j. 0 <= i < j < length result -> result[i] <= result[j] }
  val function seq_sort_real (s: seq real) : seq real
    ensures { perm s result /\ forall i j. 0 <= i < j < length result -> result[i] <=. result[j] }
  predicate le_pair_int_real (x y: pair int real) = p1 x < p1 y \/ (p1 x = p1 y /\ p2 x <=. p2 y)
  predicate le_pair_real_int (x y: pair real int) = p1 x <. p1 y \/ (p1 x = p1 y /\ p2 x <= p2 y)
  predicate le_pair_int_int (x y: pair int int) = p1 x < p1 y \/ (p1 x = p1 y /\ p2 x <= p2 y)
  val function seq_sort_pair_int_real (s: seq (pair int real)) : seq (pair int real)
    ensures { perm s result /\ forall i j. 0 <= i < j < length result -> le_pair_int_real result[i] result[j] }
  val function seq_sort_pair_real_int (s: seq (pair real int)) : seq (pair real int)
    ensures { perm s result /\ forall i j. 0 <= i < j < length result -> le_pair_real_int result[i] result[j] }
  val function seq_sort_pair_int_int (s: seq (pair int int)) : seq (pair int int)
    ensures { perm s result /\ forall i j. 0 <= i < j < length result -> le_pair_int_int result[i] result[j] }
  (* lexicographic order on sequences of ints (std::string, std::vector<int>) *)
  predicate lex_lt (x y: seq int) =
    exists k. 0 <= k <= length x /\ k <= length y /\ (forall i. 0 <= i < k -> x[i] = y[i]) /\
      ((k = length x /\ k < length y) \/ (k < length x /\ k < length y /\ x[k] < y[k]))
  val lt_str (x y: seq int) : bool ensures { result <-> lex_lt x y }

  (* ---- std::string *)
  let function str_suffix (s: seq 'a) (p: int) : seq 'a
    requires { [@expl:substr position] 0 <= p <= length s } = s[p .. length s]
  let function str_substr (s: seq 'a) (p n: int) : seq 'a
    requires { [@expl:substr position] 0 <= p <= length s /\ n >= 0 }
  = if p + n > length s then s[p .. length s] else s[p .. p + n]
  val function str_find_char (s: seq int) (c: int) (p: int) : int
  axiom str_find_char_def : forall s: seq int, c p: int. 0 <= p -> length s < npos ->
    let r = str_find_char s c p in
      (r = npos /\ (forall k. p <= k < length s -> s[k] <> c)) \/
      (p <= r < length s /\ s[r] = c /\ (forall k. p <= k < r -> s[k] <> c))
  predicate occurs_at (s t: seq int) (k: int) = 0 <= k /\ k + length t <= length s /\ (forall i. 0 <= i < length t -> s[k+i] = t[i])
  val function str_find (s t: seq int) (p: int) : int
  axiom str_find_def : forall s t: seq int, p: int. 0 <= p -> length s < npos ->
    let r = str_find s t p in
      (r = npos /\ (forall k. p <= k -> not (occurs_at s t k))) \/
      (p <= r /\ occurs_at s t r /\ (forall k. p <= k < r -> not (occurs_at s t k)))
  predicate space_char (c: int) = c = 32 \/ 9 <= c <= 13
  val is_space (c: int) : bool ensures { result <-> space_char c }
  (* decimal rendering: uninterpreted, injective *)
  val function itoa (n: int) : seq int
  axiom itoa_nonempty : forall n. length (itoa n) > 0
  axiom itoa_digits : forall n i. n >= 0 -> 0 <= i < length (itoa n) -> 48 <= (itoa n)[i] <= 57
  axiom itoa_inj : forall n m. itoa n = itoa m -> n = m
  val function dtoa (x: real) : seq int
  axiom dtoa_nonempty : forall x. length (dtoa x) > 0
  val function str_to_int (s: seq int) : int
  axiom str_to_int_digits : forall s: seq int. length s > 0 -> (forall i. 0 <= i < length s -> 48 <= s[i] <= 57) -> str_to_int s >= 0
  axiom str_to_int_itoa : forall n. str_to_int (itoa n) = n
  val function str_to_real (s: seq int) : real
  axiom str_to_real_dtoa : forall x. str_to_real (dtoa x) = x

  val lex_int (s: seq int) : int raises { CxxThrow } ensures { result = str_to_int s }
  val lex_real (s: seq int) : real raises { CxxThrow } ensures { result = str_to_real s }
  (* ---- std::istringstream: contents, position, no failbit *)
  type istream
  val function is_str (s: istream) : seq int
  val function is_pos (s: istream) : int
  val function is_ok (s: istream) : bool
  val function mk_is (s: seq int) (p: int) (ok: bool) : istream
  axiom is_mk : forall s: seq int, p: int, ok: bool [mk_is s p ok]. is_str (mk_is s p ok) = s /\ is_pos (mk_is s p ok) = p /\ is_ok (mk_is s p ok) = ok
  (* first non-space, first space at or after p *)
  val function sp_skip (s: seq int) (p: int) : int
  axiom sp_skip_def : forall s: seq int, p: int [sp_skip s p]. 0 <= p <= length s -> let r = sp_skip s p in
    p <= r <= length s /\ (r < length s -> not (space_char s[r]))
  axiom sp_skip_all : forall s: seq int, p k: int [sp_skip s p, s[k]]. 0 <= p <= k < sp_skip s p -> space_char s[k]
  val function sp_tok (s: seq int) (p: int) : int
  axiom sp_tok_def : forall s: seq int, p: int [sp_tok s p]. 0 <= p <= length s -> let r = sp_tok s p in
    p <= r <= length s /\ (r < length s -> space_char s[r]) /\ (p < length s -> not (space_char s[p]) -> p < r)
  axiom sp_tok_all : forall s: seq int, p k: int [sp_tok s p, s[k]]. 0 <= p <= k < sp_tok s p -> not (space_char s[k])
  val function is_next_str (i: istream) : istream
  axiom is_next_str_ok : forall i: istream [is_next_str i]. is_ok i -> sp_skip (is_str i) (is_pos i) < length (is_str i) ->
    is_next_str i = mk_is (is_str i) (sp_tok (is_str i) (sp_skip (is_str i) (is_pos i))) true
  axiom is_next_str_no : forall i: istream [is_next_str i]. is_ok i -> not (sp_skip (is_str i) (is_pos i) < length (is_str i)) -> is_next_str i = mk_is (is_str i) (length (is_str i)) false
  axiom is_next_str_bad : forall i: istream [is_next_str i]. not (is_ok i) -> is_next_str i = i
  val function is_get_str (i: istream) (o: seq int) : seq int
  axiom is_get_str_ok : forall i: istream, o: seq int [is_get_str i o]. is_ok i -> sp_skip (is_str i) (is_pos i) < length (is_str i) ->
    is_get_str i o = (is_str i)[sp_skip (is_str i) (is_pos i) .. sp_tok (is_str i) (sp_skip (is_str i) (is_pos i))]
  axiom is_get_str_no : forall i: istream, o: seq int [is_get_str i o]. not (is_ok i) \/ not (sp_skip (is_str i) (is_pos i) < length (is_str i)) -> is_get_str i o = o
  (* numbers: where a number starting at p ends (p itself if there is none), and its value *)
  val function num_end (s: seq int) (p: int) : int
  val function num_int (s: seq int) (p: int) : int
  val function num_real (s: seq int) (p: int) : real
  axiom num_end_def : forall s: seq int, p: int [num_end s p]. 0 <= p <= length s -> p <= num_end s p <= length s
  axiom num_itoa : forall s: seq int, p n: int [num_end s p, itoa n]. 0 <= p -> occurs_at s (itoa n) p -> (p + length (itoa n) = length s \/ not (48 <= s[p + length (itoa n)] <= 57)) ->
    num_end s p = p + length (itoa n) /\ num_int s p = n
  val function is_next_int (i: istream) : istream
  axiom is_next_int_def : forall i: istream [is_next_int i]. is_next_int i = if not (is_ok i) then i else
    let p = sp_skip (is_str i) (is_pos i) in if num_end (is_str i) p > p then mk_is (is_str i) (num_end (is_str i) p) true else mk_is (is_str i) p false
  val function is_get_int (i: istream) (o: int) : int
  axiom is_get_int_def : forall i: istream, o: int [is_get_int i o]. is_get_int i o = if not (is_ok i) then o else
    let p = sp_skip (is_str i) (is_pos i) in if num_end (is_str i) p > p then num_int (is_str i) p else if p < length (is_str i) then 0 else o
  val function is_next_real (i: istream) : istream
  val function rnum_end (s: seq int) (p: int) : int
  axiom rnum_end_def : forall s: seq int, p: int [rnum_end s p]. 0 <= p <= length s -> p <= rnum_end s p <= length s
  axiom is_next_real_def : forall i: istream [is_next_real i]. is_next_real i = if not (is_ok i) then i else
    let p = sp_skip (is_str i) (is_pos i) in if rnum_end (is_str i) p > p then mk_is (is_str i) (rnum_end (is_str i) p) true else mk_is (is_str i) p false
  val function is_get_real (i: istream) (o: real) : real
  axiom is_get_real_def : forall i: istream, o: real [is_get_real i o]. is_ok i ->
    let p = sp_skip (is_str i) (is_pos i) in rnum_end (is_str i) p > p -> is_get_real i o = num_real (is_str i) p
  val function is_next_chr (i: istream) : istream
  axiom is_next_chr_def : forall i: istream [is_next_chr i]. is_next_chr i = if not (is_ok i) then i else
    let p = sp_skip (is_str i) (is_pos i) in if p < length (is_str i) then mk_is (is_str i) (p + 1) true else mk_is (is_str i) p false
  val function is_get_chr (i: istream) (o: int) : int
  axiom is_get_chr_def : forall i: istream, o: int [is_get_chr i o]. is_get_chr i o = let p = sp_skip (is_str i) (is_pos i) in if is_ok i && p < length (is_str i) then (is_str i)[p] else o
  (* ---- std::map / std::unordered_map: finite map with an enumeration of its keys *)
  type fmap 'k 'v
  val predicate fm_mem (m: fmap 'k 'v) (k: 'k)
  function fm_val (m: fmap 'k 'v) (k: 'k) : 'v
  val function fm_keys (m: fmap 'k 'v) : seq 'k
  function fm_idx (m: fmap 'k 'v) (k: 'k) : int
  axiom fm_keys_mem : forall m: fmap 'k 'v, i: int. 0 <= i < length (fm_keys m) -> fm_mem m (fm_keys m)[i] /\ fm_idx m (fm_keys m)[i] = i
  axiom fm_idx_mem : forall m: fmap 'k 'v, k: 'k. fm_mem m k -> 0 <= fm_idx m k < length (fm_keys m) /\ (fm_keys m)[fm_idx m k] = k
  axiom fm_idx_not : forall m: fmap 'k 'v, k: 'k. not (fm_mem m k) -> fm_idx m k = length (fm_keys m)
  val function fm_get (m: fmap 'k 'v) (k: 'k) : 'v
    requires { [@expl:key present] fm_mem m k } ensures { result = fm_val m k }
  axiom fm_get_def : forall m: fmap 'k 'v, k: 'k. fm_get m k = fm_val m k
  let function fm_ent (m: fmap 'k 'v) (i: int) : pair 'k 'v
    requires { [@expl:iterator range] 0 <= i < length (fm_keys m) } = mkp (fm_keys m)[i] (fm_get m (fm_keys m)[i])
  val function fm_find (m: fmap 'k 'v) (k: 'k) : int
  axiom fm_find_def : forall m: fmap 'k 'v, k: 'k. fm_find m k = fm_idx m k
  val function fm_empty : fmap 'k 'v
  axiom fm_empty_mem : forall k: 'k. not (fm_mem (fm_empty: fmap 'k 'v) k)
  axiom fm_empty_len : length (fm_keys (fm_empty: fmap 'k 'v)) = 0
  val function fm_set (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v
  axiom fm_set_mem : forall m: fmap 'k 'v, k l: 'k, v: 'v. fm_mem (fm_set m k v) l <-> (l = k \/ fm_mem m l)
  axiom fm_set_val : forall m: fmap 'k 'v, k l: 'k, v: 'v. fm_val (fm_set m k v) l = if l = k then v else fm_val m l
  axiom fm_set_keys : forall m: fmap 'k 'v, k: 'k, v: 'v. fm_mem m k -> fm_keys (fm_set m k v) = fm_keys m
  axiom fm_set_len : forall m: fmap 'k 'v, k: 'k, v: 'v. length (fm_keys (fm_set m k v)) = length (fm_keys m) + (if fm_mem m k then 0 else 1)
  let function fm_put (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v
    requires { [@expl:key present] fm_mem m k } = fm_set m k v
  let function fm_touch (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v = if fm_mem m k then m else fm_set m k v
  let function fm_insert (m: fmap 'k 'v) (k: 'k) (v: 'v) : fmap 'k 'v = if fm_mem m k then m else fm_set m k v
  val function fm_remove (m: fmap 'k 'v) (k: 'k) : fmap 'k 'v
  axiom fm_remove_mem : forall m: fmap 'k 'v, k l: 'k. fm_mem (fm_remove m k) l <-> (l <> k /\ fm_mem m l)
  axiom fm_remove_val : forall m: fmap 'k 'v, k l: 'k. l <> k -> fm_val (fm_remove m k) l = fm_val m l
  axiom fm_remove_len : forall m: fmap 'k 'v, k: 'k. length (fm_keys (fm_remove m k)) = length (fm_keys m) - (if fm_mem m k then 1 else 0)

  (* ---- std::set *)
  type fset 'k
  val predicate fs_mem (m: fset 'k) (k: 'k)
  val function fs_keys (m: fset 'k) : seq 'k
  function fs_idx (m: fset 'k) (k: 'k) : int
  axiom fs_keys_mem : forall m: fset 'k, i: int. 0 <= i < length (fs_keys m) -> fs_mem m (fs_keys m)[i] /\ fs_idx m (fs_keys m)[i] = i
  axiom fs_idx_mem : forall m: fset 'k, k: 'k. fs_mem m k -> 0 <= fs_idx m k < length (fs_keys m) /\ (fs_keys m)[fs_idx m k] = k
  axiom fs_idx_not : forall m: fset 'k, k: 'k. not (fs_mem m k) -> fs_idx m k = length (fs_keys m)
  axiom fs_sorted_int : forall m: fset int, i j: int. 0 <= i < j < length (fs_keys m) -> (fs_keys m)[i] < (fs_keys m)[j]
  val function fs_find (m: fset 'k) (k: 'k) : int
  axiom fs_find_def : forall m: fset 'k, k: 'k. fs_find m k = fs_idx m k
  val function fs_empty : fset 'k
  axiom fs_empty_mem : forall k: 'k. not (fs_mem (fs_empty: fset 'k) k)
  axiom fs_empty_len : length (fs_keys (fs_empty: fset 'k)) = 0
  val function fs_add (m: fset 'k) (k: 'k) : fset 'k
  axiom fs_add_mem : forall m: fset 'k, k l: 'k. fs_mem (fs_add m k) l <-> (l = k \/ fs_mem m l)
  axiom fs_add_len : forall m: fset 'k, k: 'k. length (fs_keys (fs_add m k)) = length (fs_keys m) + (if fs_mem m k then 0 else 1)
  val function fs_remove (m: fset 'k) (k: 'k) : fset 'k
  axiom fs_remove_mem : forall m: fset 'k, k l: 'k. fs_mem (fs_remove m k) l <-> (l <> k /\ fs_mem m l)
  axiom fs_remove_len : forall m: fset 'k, k: 'k. length (fs_keys (fs_remove m k)) = length (fs_keys m) - (if fs_mem m k then 1 else 0)
  val function fs_add_all (m: fset 'k) (s: seq 'k) : fset 'k
  axiom fs_add_all_mem : forall m: fset 'k, s: seq 'k, l: 'k. fs_mem (fs_add_all m s) l <-> (fs_mem m l \/ exists i. 0 <= i < length s /\ s[i] = l)
  val function fs_of_seq (s: seq 'k) : fset 'k
  axiom fs_of_seq_mem : forall s: seq 'k, l: 'k. fs_mem (fs_of_seq s) l <-> exists i. 0 <= i < length s /\ s[i] = l
end
