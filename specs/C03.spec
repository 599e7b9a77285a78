@files src/lib/eval-measure.cc src/lib/eval-measure-bleu.cc
@heapclass travatar::EvalStats travatar::EvalStatsBleu travatar::EvalStatsAverage
@prelude
(* occurrences of g among the positions 0..n-1 of s *)
function ngc (s g: seq int) (n: int) : int
axiom ngc_none : forall s g: seq int, n: int [ngc s g n]. n <= 0 -> ngc s g n = 0
axiom ngc_step : forall s g: seq int, n: int [ngc s g n]. n > 0 -> ngc s g n = ngc s g (n-1) + (if n - 1 + length g <= length s /\ s[n-1 .. n-1+length g] = g then 1 else 0)
let rec lemma ngc_pos (s g: seq int) (n: int) variant { n } ensures { ngc s g n >= 0 } = if n > 0 then ngc_pos s g (n-1)
let rec lemma ngc_rest (s g: seq int) (m n: int) requires { 0 <= m <= n /\ m + length g > length s } variant { n } ensures { ngc s g n = ngc s g m }
= if n > m then ngc_rest s g m (n-1)
let rec lemma ngc_mono (s g: seq int) (m n: int) requires { 0 <= m <= n } variant { n } ensures { ngc s g m <= ngc s g n }
= if n > m then ngc_mono s g m (n-1)
(* m holds exactly the n-grams of s of sizes lo..hi, each with its number of occurrences *)
predicate counts_of (m: fmap (seq int) int) (s: seq int) (hi: int) =
  forall g. (fm_mem m g <-> (1 <= length g <= hi /\ ngc s g (length s) > 0)) /\ (fm_mem m g -> fm_val m g = ngc s g (length s))
(* clipped matches of size k among the first n n-grams of the system output *)
let function min2 (a b: int) : int = if a <= b then a else b
let rec ghost function matches (r y: fmap (seq int) int) (k n: int) : real requires { 0 <= n <= length (fm_keys y) } variant { n }
= if n <= 0 then 0.0 else let g = (fm_keys y)[n-1] in
  if length g = k && fm_mem r g then matches r y k (n-1) +. from_int (min2 (fm_val r g) (fm_val y g)) else matches r y k (n-1)
lemma matches_step : forall r y: fmap (seq int) int, k n: int. 0 <= n < length (fm_keys y) -> matches r y k (n+1) = matches r y k n +. (if length (fm_keys y)[n] = k /\ fm_mem r (fm_keys y)[n] then from_int (min2 (fm_val r (fm_keys y)[n]) (fm_val y (fm_keys y)[n])) else 0.0)
(* score of one n-gram size *)
function smo (smooth: real) (i: int) : real
axiom smo_0 : forall s. smo s 0 = 0.0
axiom smo_n : forall s i [smo s i]. i <> 0 -> smo s i = s
function sysn (v: seq real) (smooth: real) (i: int) : real
axiom sysn_def : forall v: seq real, smooth: real, i: int. sysn v smooth i = v[3*i+1] +. smo smooth i
function refn (v: seq real) (smooth: real) (i: int) : real
axiom refn_def : forall v: seq real, smooth: real, i: int. refn v smooth i = v[3*i+2] +. smo smooth i
function den (v: seq real) (smooth pw: real) (i: int) : real = (pw *. sysn v smooth i) +. (1.0 -. pw) *. refn v smooth i
function fscore (v: seq real) (smooth pw: real) (inv: bool) (i: int) : real =
  let f = if den v smooth pw i = 0.0 then 0.0 else quo (v[3*i] +. smo smooth i) (den v smooth pw i) in
  if inv then 1.0 -. f else f
function bcomb (v: seq real) (smooth pw: real) (inv: bool) (mean n: int) : real
axiom bcomb_0 : forall v: seq real, smooth pw: real, inv: bool, mean n: int. n <= 0 -> bcomb v smooth pw inv mean n = if mean = 0 then 1.0 else 0.0
axiom bcomb_s : forall v: seq real, smooth pw: real, inv: bool, mean n: int [bcomb v smooth pw inv mean n]. n > 0 -> bcomb v smooth pw inv mean n =
  if mean = 0 then bcomb v smooth pw inv mean (n-1) *. fscore v smooth pw inv (n-1) else bcomb v smooth pw inv mean (n-1) +. fscore v smooth pw inv (n-1)
lemma bcomb_step : forall v: seq real, smooth pw: real, inv: bool, mean n: int. n >= 0 -> bcomb v smooth pw inv mean (n+1) =
  if mean = 0 then bcomb v smooth pw inv mean n *. fscore v smooth pw inv n else bcomb v smooth pw inv mean n +. fscore v smooth pw inv n

@prelude2
predicate same_but (h h0: heap (seq real)) (t: int) = forall p. p <> t -> hget h p = hget h0 p
@fn travatar::EvalStats::PlusEquals as es_plusEquals
ensures { result = this /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this }
ensures { length (hget (old h_evalStats_vals_) this) = 0 -> hget h_evalStats_vals_ this = hget (old h_evalStats_vals_) rhs }
ensures { length (hget (old h_evalStats_vals_) rhs) = 0 -> hget h_evalStats_vals_ this = hget (old h_evalStats_vals_) this }
ensures { length (hget (old h_evalStats_vals_) this) > 0 -> length (hget (old h_evalStats_vals_) rhs) > 0 -> length (hget (old h_evalStats_vals_) rhs) = length (hget (old h_evalStats_vals_) this) /\ length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) }
ensures { length (hget (old h_evalStats_vals_) this) > 0 -> length (hget (old h_evalStats_vals_) rhs) > 0 -> forall i. 0 <= i < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[i] = (hget (old h_evalStats_vals_) this)[i] +. (hget (old h_evalStats_vals_) rhs)[i] }
@loop 1
invariant { 0 <= i <= length (hget (old h_evalStats_vals_) rhs) /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this }
invariant { length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) = length (hget (old h_evalStats_vals_) rhs) }
invariant { forall j. 0 <= j < i -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] +. (hget (old h_evalStats_vals_) rhs)[j] }
invariant { forall j. i <= j < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] }
variant { length (hget (old h_evalStats_vals_) rhs) - i }
@fn travatar::EvalStats::PlusEqualsTimes as es_plusEqualsTimes
ensures { result = this /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this }
ensures { length (hget (old h_evalStats_vals_) this) = 0 -> length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) rhs) }
ensures { length (hget (old h_evalStats_vals_) this) = 0 -> forall i. 0 <= i < length (hget (old h_evalStats_vals_) rhs) -> (hget h_evalStats_vals_ this)[i] = (hget (old h_evalStats_vals_) rhs)[i] *. p }
ensures { length (hget (old h_evalStats_vals_) rhs) = 0 -> hget h_evalStats_vals_ this = hget (old h_evalStats_vals_) this }
ensures { length (hget (old h_evalStats_vals_) this) > 0 -> length (hget (old h_evalStats_vals_) rhs) > 0 -> length (hget (old h_evalStats_vals_) rhs) = length (hget (old h_evalStats_vals_) this) /\ length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) }
ensures { length (hget (old h_evalStats_vals_) this) > 0 -> length (hget (old h_evalStats_vals_) rhs) > 0 -> forall i. 0 <= i < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[i] = (hget (old h_evalStats_vals_) this)[i] +. (hget (old h_evalStats_vals_) rhs)[i] *. p }
@loop 1
invariant { 0 <= i <= length (hget (old h_evalStats_vals_) rhs) /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this }
invariant { length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) rhs) /\ length (hget (old h_evalStats_vals_) this) = 0 }
invariant { forall j. 0 <= j < i -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) rhs)[j] *. p }
invariant { forall j. i <= j < length (hget (old h_evalStats_vals_) rhs) -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) rhs)[j] }
variant { length (hget (old h_evalStats_vals_) rhs) - i }
@loop 2
invariant { 0 <= i <= length (hget (old h_evalStats_vals_) rhs) /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this }
invariant { length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) = length (hget (old h_evalStats_vals_) rhs) }
invariant { forall j. 0 <= j < i -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] +. (hget (old h_evalStats_vals_) rhs)[j] *. p }
invariant { forall j. i <= j < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] }
variant { length (hget (old h_evalStats_vals_) rhs) - i }
@fn travatar::EvalStats::TimesEquals as es_timesEquals
ensures { result = this /\ same_but h_evalStats_vals_ (old h_evalStats_vals_) this /\ length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) }
ensures { forall i. 0 <= i < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[i] = (hget (old h_evalStats_vals_) this)[i] *. mult }
@loop 1
invariant { same_but h_evalStats_vals_ (old h_evalStats_vals_) this /\ length (hget h_evalStats_vals_ this) = length (hget (old h_evalStats_vals_) this) }
invariant { forall j. 0 <= j < $i -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] *. mult }
invariant { forall j. $i <= j < length (hget (old h_evalStats_vals_) this) -> (hget h_evalStats_vals_ this)[j] = (hget (old h_evalStats_vals_) this)[j] }
@fn travatar::EvalStats::IsZero as es_isZero
ensures { result <-> (forall i. 0 <= i < length (hget h_evalStats_vals_ this) -> (hget h_evalStats_vals_ this)[i] = 0.0) }
@loop 1
invariant { forall j. 0 <= j < $i -> (hget h_evalStats_vals_ this)[j] = 0.0 }
@fn travatar::EvalStats::Equals as es_equals
ensures { result <-> (length (hget h_evalStats_vals_ this) = length (hget h_evalStats_vals_ rhs) /\ forall i. 0 <= i < length (hget h_evalStats_vals_ this) -> abs_real ((hget h_evalStats_vals_ this)[i] -. (hget h_evalStats_vals_ rhs)[i]) <=. 1e-6) }
@loop 1
invariant { length (hget h_evalStats_vals_ this) = length (hget h_evalStats_vals_ rhs) /\ 0 <= i <= length (hget h_evalStats_vals_ this) }
invariant { forall j. 0 <= j < i -> abs_real ((hget h_evalStats_vals_ this)[j] -. (hget h_evalStats_vals_ rhs)[j]) <=. 1e-6 }
variant { length (hget h_evalStats_vals_ this) - i }
@fn travatar::EvalMeasureBleu::ExtractNgrams as bleu_extract
requires { evalMeasureBleu_ngram_order_ this >= 0 }
ensures { counts_of (hget hv_fmap_seq_int_int result) sentence (evalMeasureBleu_ngram_order_ this) }
@loop 1
invariant { 0 <= k <= evalMeasureBleu_ngram_order_ this /\ length ngram = 0 /\ counts_of (hget hv_fmap_seq_int_int all_ngrams) sentence k }
variant { evalMeasureBleu_ngram_order_ this - k }
@loop 2
invariant { 0 <= i /\ (i <= length sentence - k \/ i = 0) /\ length ngram = 0 }
invariant { forall g. let m = hget hv_fmap_seq_int_int all_ngrams in 1 <= length g <= k -> (fm_mem m g <-> ngc sentence g (length sentence) > 0) /\ (fm_mem m g -> fm_val m g = ngc sentence g (length sentence)) }
invariant { forall g. let m = hget hv_fmap_seq_int_int all_ngrams in length g = k + 1 -> (fm_mem m g <-> ngc sentence g i > 0) /\ (fm_mem m g -> fm_val m g = ngc sentence g i) }
invariant { forall g. let m = hget hv_fmap_seq_int_int all_ngrams in fm_mem m g -> 1 <= length g <= k + 1 }
variant { length sentence - i }
@loop 3
invariant { i <= j <= i + k + 1 /\ length ngram = j - i /\ forall q. 0 <= q < j - i -> ngram[q] = sentence[i + q] }
variant { i + k + 1 - j }
@ghost loop 3 after
assert { ngram == sentence[i .. i + k + 1] };
@fn travatar::EvalMeasureBleu::CalculateStats sig=[map<vector<int>,int>] as bleu_calc
requires { evalMeasureBleu_ngram_order_ this >= 0 /\ (forall g. fm_mem sys_ngrams g -> 1 <= length g <= evalMeasureBleu_ngram_order_ this) }
ensures { evalMeasureBleu_scope_ this = 0 -> length (hget h_evalStats_vals_ result) = 3 * evalMeasureBleu_ngram_order_ this }
ensures { evalMeasureBleu_scope_ this = 0 -> forall i. 0 <= i < evalMeasureBleu_ngram_order_ this -> (hget h_evalStats_vals_ result)[3*i] = matches ref_ngrams sys_ngrams (i+1) (length (fm_keys sys_ngrams)) }
ensures { evalMeasureBleu_scope_ this = 0 -> forall i. 0 <= i < evalMeasureBleu_ngram_order_ this -> (hget h_evalStats_vals_ result)[3*i+1] = from_int (if sys_len > i then sys_len - i else 0) /\ (hget h_evalStats_vals_ result)[3*i+2] = from_int (if ref_len > i then ref_len - i else 0) }
ensures { evalMeasureBleu_scope_ this = 1 -> length (hget h_evalStats_vals_ result) = 2 /\ (hget h_evalStats_vals_ result)[1] = 1.0 }
@loop 1
invariant { 0 <= i <= evalMeasureBleu_ngram_order_ this /\ length vals = 3 * evalMeasureBleu_ngram_order_ this }
invariant { forall j. 0 <= j < i -> vals[3*j] = 0.0 /\ vals[3*j+1] = from_int (if sys_len > j then sys_len - j else 0) /\ vals[3*j+2] = from_int (if ref_len > j then ref_len - j else 0) }
variant { evalMeasureBleu_ngram_order_ this - i }
@loop 2
invariant { 0 <= it <= length (fm_keys sys_ngrams) /\ length vals = 3 * evalMeasureBleu_ngram_order_ this }
invariant { forall j. 0 <= j < evalMeasureBleu_ngram_order_ this -> vals[3*j] = matches ref_ngrams sys_ngrams (j+1) it }
invariant { forall j. 0 <= j < evalMeasureBleu_ngram_order_ this -> vals[3*j+1] = from_int (if sys_len > j then sys_len - j else 0) /\ vals[3*j+2] = from_int (if ref_len > j then ref_len - j else 0) }
variant { length (fm_keys sys_ngrams) - it }
@trusted travatar::EvalStats::ConvertToScore as es_score
@fn travatar::EvalStatsBleu::CalcBleuReport as bleu_report
requires { let v = hget h_evalStats_vals_ this in length v >= 3 /\ v[1] >. 0.0 /\ v[2] >. 0.0 }
ensures { let v = hget h_evalStats_vals_ this in bleuReport_sys_len result = v[1] /\ bleuReport_ref_len result = v[2] /\ bleuReport_ratio result = quo v[1] v[2] }
ensures { let v = hget h_evalStats_vals_ this in bleuReport_brevity result = if hget h_evalStatsBleu_calc_brev_ this /\ 1.0 -. quo v[2] v[1] <. 0.0 then exp (1.0 -. quo v[2] v[1]) else 1.0 }
ensures { let v = hget h_evalStats_vals_ this in length (bleuReport_scores result) = cdiv (length v) 3 /\ forall i. 0 <= i < cdiv (length v) 3 -> (bleuReport_scores result)[i] = fscore v (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) i }
ensures { let v = hget h_evalStats_vals_ this in let n = cdiv (length v) 3 in let c = bcomb v (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) (hget h_evalStatsBleu_mean_ this) n in
  let lb = (if c = 0.0 then -. real_max else if hget h_evalStatsBleu_mean_ this = 0 then quo (log c) (from_int n) else log (quo c (from_int n))) in
  bleuReport_bleu result = exp (if hget h_evalStatsBleu_calc_brev_ this /\ 1.0 -. quo v[2] v[1] <. 0.0 then lb +. (1.0 -. quo v[2] v[1]) else lb) }
ensures { 0.0 <. bleuReport_bleu result <=. 1.0 }
@loop 1
invariant { let v = hget h_evalStats_vals_ this in 0 <= i <= cdiv (length v) 3 /\ length (bleuReport_scores report) = i }
invariant { let v = hget h_evalStats_vals_ this in forall j. 0 <= j < i -> (bleuReport_scores report)[j] = fscore v (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) j }
invariant { let v = hget h_evalStats_vals_ this in log_bleu = bcomb v (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) (hget h_evalStatsBleu_mean_ this) i }
variant { length (hget h_evalStats_vals_ this) - i }
@ghost loop 1 start
assert { smo (hget h_evalStatsBleu_smooth_ this) i = if i = 0 then 0.0 else hget h_evalStatsBleu_smooth_ this };
assert { fscore (hget h_evalStats_vals_ this) (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) true i = 1.0 -. fscore (hget h_evalStats_vals_ this) (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) false i };
@ghost loop 1 end
assert { (i at I1) = 0 -> (bleuReport_scores report)[i at I1] = fscore (hget h_evalStats_vals_ this) (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) (i at I1) };
assert { (i at I1) <> 0 -> (bleuReport_scores report)[i at I1] = fscore (hget h_evalStats_vals_ this) (hget h_evalStatsBleu_smooth_ this) (hget h_evalStatsBleu_prec_weight_ this) (hget h_evalStatsBleu_inverse_ this) (i at I1) };
@ghost loop 1 after
assert { cdiv (length (hget h_evalStats_vals_ this)) 3 >= 1 };
