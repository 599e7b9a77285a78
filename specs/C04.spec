@files src/lib/eval-measure-wer.cc src/lib/eval-measure-zeroone.cc src/lib/eval-measure-ribes.cc
@heapclass travatar::EvalStats travatar::EvalStatsAverage travatar::EvalStatsWer travatar::EvalStatsZeroOne travatar::EvalStatsRibes
@prelude
(* Levenshtein distance of the first i symbols of r and the first j of s *)
function lev (r s: seq int) (i j: int) : int
axiom lev_l : forall r s: seq int, i: int [lev r s i 0]. 0 <= i -> lev r s i 0 = i
axiom lev_r : forall r s: seq int, j: int [lev r s 0 j]. 0 <= j -> lev r s 0 j = j
let function min3 (a b c: int) : int = if a <= b && a <= c then a else if b <= c then b else c
axiom lev_d : forall r s: seq int, i j: int [lev r s i j]. 0 < i -> 0 < j -> lev r s i j = min3 (lev r s (i-1) j + 1) (lev r s i (j-1) + 1) (lev r s (i-1) (j-1) + (if r[i-1] = s[j-1] then 0 else 1))
(* what makes it a distance *)
let rec lemma lev_bounds (r s: seq int) (i j: int) requires { 0 <= i /\ 0 <= j } variant { i + j }
  ensures { i - j <= lev r s i j /\ j - i <= lev r s i j /\ 0 <= lev r s i j /\ (lev r s i j <= i \/ lev r s i j <= j) }
= if i > 0 && j > 0 then begin lev_bounds r s (i-1) j; lev_bounds r s i (j-1); lev_bounds r s (i-1) (j-1) end
let rec lemma lev_sym (r s: seq int) (i j: int) requires { 0 <= i /\ 0 <= j } variant { i + j }
  ensures { lev r s i j = lev s r j i }
= if i > 0 && j > 0 then begin lev_sym r s (i-1) j; lev_sym r s i (j-1); lev_sym r s (i-1) (j-1) end
let rec lemma lev_eq0 (r s: seq int) (i: int) requires { 0 <= i /\ forall k. 0 <= k < i -> r[k] = s[k] } variant { i }
  ensures { lev r s i i = 0 }
= if i > 0 then begin lev_eq0 r s (i-1); lev_bounds r s (i-1) i; lev_bounds r s i (i-1) end
let rec lemma lev_0eq (r s: seq int) (i j: int) requires { 0 <= i /\ 0 <= j /\ lev r s i j = 0 } variant { i }
  ensures { i = j /\ forall k. 0 <= k < i -> r[k] = s[k] }
= lev_bounds r s i j; if i > 0 then begin lev_bounds r s (i-1) j; lev_bounds r s i (j-1); lev_bounds r s (i-1) (j-1); lev_0eq r s (i-1) (j-1) end
(* row-major cells *)
function cell (w a b: int) : int
axiom cell_def : forall w a b: int. cell w a b = a * w + b
lemma cell_step : forall w a b: int. cell w (a+1) b = cell w a b + w /\ cell w a (b+1) = cell w a b + 1
lemma cell_0 : forall w b: int [cell w 0 b]. cell w 0 b = b
let lemma cell_lt (w a b i j: int) requires { 0 <= a < i /\ 0 <= b < w /\ 0 <= j } ensures { cell w a b < cell w i j } =
  assert { i * w = a * w + (i - a) * w }; assert { (i - a) * w >= w }
lemma cell_ne : forall w a b i j: int [cell w a b, cell w i j]. 0 <= a -> 0 <= i -> 0 <= b < w -> 0 <= j < w -> (a <> i \/ b <> j) -> cell w a b <> cell w i j
lemma cell_in : forall w a b n: int [cell w a b, cell w n 0]. 0 <= a < n -> 0 <= b < w -> 0 <= cell w a b < cell w n 0

(* RIBES: the matched reference positions, in system order *)
predicate aligned (l rf sys: seq int) = forall k. 0 <= k < length l -> 0 <= l[k] < length rf /\ exists p. 0 <= p < length sys /\ sys[p] = rf[l[k]]
(* pairs (i, k), i < k < j, with l[i] < l[k]; and those of all rows below i *)
function ascrow (l: seq int) (i j: int) : int
axiom ascrow_0 : forall l: seq int, i j: int [ascrow l i j]. j <= i + 1 -> ascrow l i j = 0
axiom ascrow_s : forall l: seq int, i j: int [ascrow l i (j+1)]. j > i -> ascrow l i (j+1) = ascrow l i j + (if l[i] < l[j] then 1 else 0)
function asc (l: seq int) (i n: int) : int
axiom asc_0 : forall l: seq int, n: int. asc l 0 n = 0
axiom asc_s : forall l: seq int, i n: int [asc l (i+1) n]. 0 <= i -> asc l (i+1) n = asc l i n + ascrow l i n
function bpen (rf sys: seq int) : real = let x = exp (1.0 -. quo (1.0 *. from_int (length rf)) (from_int (length sys))) in if x <. 1.0 then x else 1.0
(* v is the score for the matched positions l *)
predicate ribes_of (l rf sys: seq int) (al be: real) (v: real) =
  length l <= length sys /\ aligned l rf sys /\
  v = (if length l = 1 /\ length rf = 1 then pow (quo 1.0 (from_int (length sys))) al *. pow (bpen rf sys) be
       else if length l < 2 then 0.0
       else quo (from_int (asc l (length l - 1) (length l))) (from_int (cdiv (length l * (length l - 1)) 2)) *. pow (quo (1.0 *. from_int (length l)) (from_int (length sys))) al *. pow (bpen rf sys) be)
predicate unit_interval (x: real) = 0.0 <=. x <=. 1.0
lemma unit_mul : forall x y: real. unit_interval x -> unit_interval y -> unit_interval (x *. y)
(* all positions below n, by word *)
predicate cands (c s: seq int) (w: int) = forall k. 0 <= k < length c -> 0 <= c[k] < length s /\ s[c[k]] = w
predicate positions (m: fmap int (seq int)) (s: seq int) (n: int) = forall w. fm_mem m w -> forall k. 0 <= k < length (fm_val m w) -> 0 <= (fm_val m w)[k] < n /\ s[(fm_val m w)[k]] = w

@prelude2
@fn travatar::EvalMeasureWer::EditDistance as wer_dist
ensures { result = lev ref sys (length ref) (length sys) }
@ghost loop 1 before
assert { length dists = cell ss rs 0 };
@ghost loop 1 start
assert { i * ss = cell ss i 0 /\ 0 <= cell ss i 0 < length dists };
@ghost loop 2 start
assert { j = cell ss 0 j };
@ghost loop 2 after
assert { forall b. 0 <= b < ss -> dists[cell ss 0 b] = lev ref sys 0 b };
@loop 1
invariant { 0 <= i <= rs /\ length dists = cell ss rs 0 }
invariant { forall a. 0 <= a < i -> dists[cell ss a 0] = a }
variant { rs - i }
@loop 2
invariant { 1 <= j <= ss /\ length dists = cell ss rs 0 }
invariant { forall a. 0 <= a < rs -> dists[cell ss a 0] = a }
invariant { forall b. 0 <= b < j -> dists[cell ss 0 b] = b }
variant { ss - j }
@loop 3
invariant { 1 <= i <= rs /\ length dists = cell ss rs 0 }
invariant { forall a b. 0 <= a < i -> 0 <= b < ss -> dists[cell ss a b] = lev ref sys a b }
invariant { forall a. 0 <= a < rs -> dists[cell ss a 0] = a }
variant { rs - i }
@ghost loop 3 end
assert { forall a b. 0 <= a < i -> 0 <= b < ss -> a < i - 1 \/ a = i - 1 };
@ghost loop 3 after
assert { rs * ss - 1 = cell ss (rs - 1) (ss - 1) };
@loop 4
invariant { 1 <= j <= ss /\ length dists = cell ss rs 0 }
invariant { forall a b. 0 <= a < i -> 0 <= b < ss -> dists[cell ss a b] = lev ref sys a b }
invariant { forall b. 0 <= b < j -> dists[cell ss i b] = lev ref sys i b }
invariant { forall a. 0 <= a < rs -> dists[cell ss a 0] = a }
variant { ss - j }
@ghost loop 4 start
assert { i * ss + j = cell ss i j /\ (i-1) * ss + j = cell ss (i-1) j /\ i * ss + j - 1 = cell ss i (j-1) /\ (i-1) * ss + j - 1 = cell ss (i-1) (j-1) };
assert { 0 <= cell ss i j < length dists /\ 0 <= cell ss (i-1) j < length dists /\ 0 <= cell ss i (j-1) < length dists /\ 0 <= cell ss (i-1) (j-1) < length dists };
assert { forall a. 0 <= a < rs -> cell ss a 0 <> cell ss i j };
assert { forall a b. 0 <= a < i -> 0 <= b < ss -> cell ss a b <> cell ss i j };
assert { forall b. 0 <= b < j -> cell ss i b <> cell ss i j };
@ghost loop 4 end
assert { dists[cell ss i (j at I4)] = lev ref sys i (j at I4) };
@fn travatar::EvalMeasureWer::CalculateStats as wer_calc
ensures { length (hget h_evalStats_vals_ result) = 2 /\ (hget h_evalStats_vals_ result)[0] = from_int (lev ref sys (length ref) (length sys)) /\ (hget h_evalStats_vals_ result)[1] = from_int (length ref) }
@fn travatar::EvalStatsWer::ConvertToScore as wer_score
requires { length (hget h_evalStats_vals_ this) = 2 }
ensures { let v = hget h_evalStats_vals_ this in let s = if v[1] = 0.0 then 0.0 else quo v[0] v[1] in result = if hget h_evalStatsWer_reverse_ this then 1.0 -. s else s }
@fn travatar::EvalStatsAverage::ConvertToScore as avg_score
requires { length (hget h_evalStats_vals_ this) = 2 }
ensures { let v = hget h_evalStats_vals_ this in result = if v[1] = 0.0 then 0.0 else quo v[0] v[1] }
@fn travatar::EvalMeasureZeroOne::CalculateStats as zo_calc
ensures { hget h_evalStats_vals_ result == snoc (snoc empty (if ref = sys then 1.0 else 0.0)) 1.0 }
@fn travatar::EvalMeasureRibes::CalculateStats as ribes_calc
requires { evalMeasureRibes_alpha_ this >=. 0.0 /\ evalMeasureRibes_beta_ this >=. 0.0 }
ensures { length (hget h_evalStats_vals_ result) = 2 /\ (hget h_evalStats_vals_ result)[1] = 1.0 }
ensures { length ref = 0 -> (hget h_evalStats_vals_ result)[0] = if length sys = 0 then 1.0 else 0.0 }
ensures { length ref > 0 /\ length sys = 0 -> (hget h_evalStats_vals_ result)[0] = 0.0 }
ensures { length ref > 0 /\ length sys > 0 -> exists l. ribes_of l ref sys (evalMeasureRibes_alpha_ this) (evalMeasureRibes_beta_ this) (hget h_evalStats_vals_ result)[0] }
ensures { 0.0 <=. (hget h_evalStats_vals_ result)[0] <=. 1.0 }
@loop 1
invariant { positions ref_count ref i }
invariant { i <= length ref }
variant { length ref - i }
@loop 2
invariant { positions sys_count sys i }
invariant { i <= length sys }
variant { length sys - i }
@loop 3
invariant { positions ref_count ref (length ref) /\ positions sys_count sys (length sys) }
invariant { length intlist <= i <= length sys }
invariant { aligned intlist ref sys }
variant { length sys - i }
@loop 4
invariant { 1 <= window /\ length intlist <= i < length sys }
invariant { aligned intlist ref sys }
invariant { cands left_ref ref sys[i] /\ cands right_ref ref sys[i] /\ cands left_sys sys sys[i] /\ cands right_sys sys sys[i] }
variant { (if i > length sys - i then i else length sys - i) - window + 1 }
@loop 5
invariant { cands new_left_ref ref sys[i] }
@loop 6
invariant { cands new_left_sys sys sys[i] }
@loop 7
invariant { cands new_right_ref ref sys[i] }
@loop 8
invariant { cands new_right_sys sys sys[i] }
@ghost loop 4 after
assert { length intlist <= i + 1 /\ aligned intlist ref sys };
@ghost loop 3 after
assert { length ref = 1 -> length intlist = 1 -> ribes_of intlist ref sys (evalMeasureRibes_alpha_ this) (evalMeasureRibes_beta_ this) (pow (quo 1.0 (from_int (length sys))) (evalMeasureRibes_alpha_ this) *. pow bp (evalMeasureRibes_beta_ this)) };
assert { length intlist < 2 -> not (length ref = 1 /\ length intlist = 1) -> ribes_of intlist ref sys (evalMeasureRibes_alpha_ this) (evalMeasureRibes_beta_ this) 0.0 };
@loop 9
invariant { 0 <= i <= n - 1 /\ ascending = asc intlist i n }
invariant { 0 <= 2 * ascending <= i * (2 * n - 1 - i) }
variant { n - 1 - i }
@loop 10
invariant { i + 1 <= j <= n }
invariant { ascending = asc intlist i n + ascrow intlist i j }
invariant { 0 <= ascrow intlist i j <= j - i - 1 }
variant { n - j }
@ghost loop 10 start
assert { ascrow intlist i (j + 1) = ascrow intlist i j + (if intlist[i] < intlist[j] then 1 else 0) };
@ghost loop 9 after
assert { 2 * ascending <= n * (n - 1) };
assert { cdiv (n * (n - 1)) 2 > 0 /\ 0 <= ascending <= cdiv (n * (n - 1)) 2 };
assert { ribes_of intlist ref sys (evalMeasureRibes_alpha_ this) (evalMeasureRibes_beta_ this) (quo (from_int ascending) (from_int (cdiv (n * (n - 1)) 2)) *. pow (quo (1.0 *. from_int n) (from_int (length sys))) (evalMeasureRibes_alpha_ this) *. pow bp (evalMeasureRibes_beta_ this)) };
assert { unit_interval (quo (from_int ascending) (from_int (cdiv (n * (n - 1)) 2))) /\ unit_interval (quo (1.0 *. from_int n) (from_int (length sys))) };
