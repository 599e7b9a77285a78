@files src/lib/sparse-map.cc src/lib/tuning-example-nbest.cc src/lib/mert-geometry.cc
@include sparse.inc
@heapclass travatar::EvalStats travatar::MertLine travatar::MertHull
@prelude
let rec ghost function dotvm (l: sv) (r: fmap int real) (n: int) : real requires { 0 <= n <= length l } variant { n }
= if n <= 0 then 0.0 else if fm_mem r (p1 l[n-1]) then dotvm l r (n-1) +. p2 l[n-1] *. fm_val r (p1 l[n-1]) else dotvm l r (n-1)
(* scored lines: ((slope, value at 0), score) *)
type sline = pair (pair real real) int
let function slope (p: sline) : real = p1 (p1 p)
let function icept (p: sline) : real = p2 (p1 p)
function fl (p: sline) (x: real) : real
axiom fl_def : forall p: sline, x: real. fl p x = slope p *. x +. icept p
function inter (p q: sline) : real = quo (icept p -. icept q) (slope q -. slope p)
let lemma slope_up (p q: sline) (a x: real) requires { slope p <=. slope q /\ fl p a <=. fl q a /\ a <=. x } ensures { fl p x <=. fl q x }
= assert { fl q x -. fl p x = (slope q -. slope p) *. (x -. a) +. (fl q a -. fl p a) }
let lemma dist_sign (d y x: real) requires { d >. 0.0 } ensures { (x <=. y <-> d *. x <=. d *. y) /\ (x <. y <-> d *. x <. d *. y) }
= assert { d *. y -. d *. x = d *. (y -. x) }; if y >. x then assert { d *. (y -. x) >. 0.0 } else if y <. x then assert { d *. (x -. y) >. 0.0 }
let lemma cross_le (p q: sline) (x: real) requires { slope p <. slope q }
  ensures { (x <=. inter p q <-> fl q x <=. fl p x) /\ (x <. inter p q <-> fl q x <. fl p x) }
= quo_is (icept p -. icept q) (slope q -. slope p);
  let d = slope q -. slope p in
  assert { d *. inter p q = icept p -. icept q };
  assert { fl p x -. fl q x = d *. inter p q -. d *. x };
  dist_sign d (inter p q) x
val function seq_sort_pair_pair_real_real_ptr (s: seq sline) : seq sline
  ensures { perm s result /\ forall i j. 0 <= i < j < length result -> slope result[i] <. slope result[j] \/ (slope result[i] = slope result[j] /\ icept result[i] <=. icept result[j]) }
predicate lsorted (l: seq sline) = forall i j. 0 <= i < j < length l -> slope l[i] <. slope l[j] \/ (slope l[i] = slope l[j] /\ icept l[i] <=. icept l[j])
(* lines cross at representable positions *)
predicate lbounded (l: seq sline) = forall i j. 0 <= i < length l -> 0 <= j < length l -> slope l[i] <. slope l[j] -> -. real_max <. inter l[i] l[j] <. real_max
predicate best_on (l: seq sline) (n: int) (a b: real) = 0 <= n < length l /\ forall x m. a <=. x <=. b -> 0 <= m < length l -> fl l[m] x <=. fl l[n] x
predicate hull_seg (l: seq sline) (h: sline) = exists n. best_on l n (p1 (p1 h)) (p2 (p1 h)) /\ p2 h = p2 l[n]

@prelude2
function ex_line (w g: fmap int real) (e: pair sparseVector int) : sline = let v = sparseVector_impl_ (p1 e) in mkp (mkp (dotvm v g (length v)) (dotvm v w (length v))) (p2 e)
function ex_lines (w g: fmap int real) (n: seq (pair sparseVector int)) : seq sline
axiom ex_lines_def : forall w g: fmap int real, n: seq (pair sparseVector int). length (ex_lines w g n) = length n /\ forall i. 0 <= i < length n -> (ex_lines w g n)[i] = ex_line w g n[i]
predicate hull_of (l h: seq sline) =
  (forall k. 0 <= k < length h -> hull_seg l h[k]) /\ (forall k. 0 <= k < length h - 1 -> p2 (p1 h[k]) = p1 (p1 h[k+1]) /\ p1 (p1 h[k]) <. p2 (p1 h[k]))
let lemma hull_perm (l m h: seq sline) requires { perm l m /\ hull_of m h } ensures { hull_of l h }
= assert { forall k. 0 <= k < length h -> hull_seg l h[k] by exists n. best_on m n (p1 (p1 h[k])) (p2 (p1 h[k])) /\ p2 h[k] = p2 m[n] so exists j. 0 <= j < length l /\ l[j] = m[n] so best_on l j (p1 (p1 h[k])) (p2 (p1 h[k])) }
@trusted travatar::operator* sig=[double(constumap<int,double>&,constSparseVector] as dot_msv
ensures { result = dotvm (sparseVector_impl_ rhs) lhs (length (sparseVector_impl_ rhs)) }
@fn travatar::TuningExampleNbest::CalculateConvexHull as nb_hull
requires { lbounded (ex_lines weights gradient (tuningExampleNbest_nbest_ this)) }
ensures { length (tuningExampleNbest_nbest_ this) = 0 -> length result = 0 }
ensures { length (tuningExampleNbest_nbest_ this) > 0 -> length result > 0 /\ p1 (p1 result[0]) = -. real_max /\ p2 (p1 result[length result - 1]) = real_max }
ensures { hull_of (ex_lines weights gradient (tuningExampleNbest_nbest_ this)) result }
@loop 1
invariant { length lines = $i /\ forall k. 0 <= k < $i -> lines[k] = ex_line weights gradient (tuningExampleNbest_nbest_ this)[k] }
@ghost loop 1 after
assert { lines == ex_lines weights gradient (tuningExampleNbest_nbest_ this) };
@loop 2
invariant { 0 <= i /\ (i < length lines \/ length lines = 0) }
invariant { forall k. 0 <= k <= i -> k < length lines -> slope lines[k] = slope lines[0] }
variant { length lines - i }
@ghost loop 2 before
assert { lsorted lines /\ perm (ex_lines weights gradient (tuningExampleNbest_nbest_ this)) lines };
assert { lbounded lines };
@ghost loop 2 after
assert { i < length lines -> forall m. 0 <= m < i -> icept lines[m] <=. icept lines[i] };
assert { i < length lines -> forall m. i < m < length lines -> slope lines[i] <. slope lines[m] };
@loop 3
invariant { 0 <= i }
invariant { i <= length lines \/ length lines = 0 }
invariant { i < length lines -> prev_pos <. real_max }
invariant { prev_pos >=. -. real_max }
invariant { i < length lines -> forall m. 0 <= m < i -> slope lines[m] <=. slope lines[i] }
invariant { i < length lines -> forall m. 0 <= m < i -> fl lines[m] prev_pos <=. fl lines[i] prev_pos }
invariant { i < length lines -> forall m. i < m < length lines -> slope lines[i] <. slope lines[m] }
invariant { i < length lines -> forall m. i < m < length lines -> fl lines[m] prev_pos <. fl lines[i] prev_pos }
invariant { forall k. 0 <= k < length hull -> hull_seg lines hull[k] }
invariant { forall k. 0 <= k < length hull - 1 -> p2 (p1 hull[k]) = p1 (p1 hull[k+1]) }
invariant { forall k. 0 <= k < length hull -> p1 (p1 hull[k]) <. p2 (p1 hull[k]) }
invariant { length hull = 0 -> prev_pos = -. real_max }
invariant { length hull > 0 -> p1 (p1 hull[0]) = -. real_max /\ p2 (p1 hull[length hull - 1]) = prev_pos }
invariant { i >= length lines -> length lines > 0 -> length hull > 0 /\ prev_pos = real_max }
invariant { length lines = 0 -> length hull = 0 }
variant { length lines - i }
@ghost loop 3 before
assert { length lines > 0 -> i < length lines };
assert { forall m. i < m < length lines -> fl lines[m] (-. real_max) <. fl lines[i] (-. real_max) };
assert { forall m. 0 <= m < i -> i < length lines -> fl lines[m] (-. real_max) <=. fl lines[i] (-. real_max) };
@loop 4
invariant { 0 <= i < length lines /\ i + 1 <= j <= length lines /\ best_pos <=. real_max }
invariant { forall m. i < m < j -> best_pos <=. inter lines[i] lines[m] }
invariant { best_j = length lines \/ i < best_j < j }
invariant { best_j = length lines -> best_pos = real_max /\ j = i + 1 }
invariant { best_j < length lines -> best_pos = inter lines[i] lines[best_j] /\ prev_pos <. best_pos /\ best_pos <. real_max }
invariant { best_j < length lines -> forall m. best_j < m < j -> best_pos <. inter lines[i] lines[m] }
variant { length lines - j }
@ghost loop 4 start
assert { slope lines[i] <. slope lines[j] };
cross_le lines[i] lines[j] prev_pos;
assert { prev_pos <. inter lines[i] lines[j] };
assert { inter lines[i] lines[j] <. real_max };
@ghost loop 4 after
assert { prev_pos <. best_pos };
assert { forall x m. prev_pos <=. x <=. best_pos -> 0 <= m < i -> fl lines[m] x <=. fl lines[i] x };
assert { forall x m. prev_pos <=. x <=. best_pos -> i < m < length lines -> fl lines[m] x <=. fl lines[i] x };
assert { best_on lines i prev_pos best_pos };
assert { best_j < length lines -> fl lines[best_j] best_pos = fl lines[i] best_pos };
assert { best_j < length lines -> forall m. 0 <= m < length lines -> fl lines[m] best_pos <=. fl lines[best_j] best_pos };
assert { best_j < length lines -> forall m. best_j < m < length lines -> fl lines[m] best_pos <. fl lines[best_j] best_pos };
assert { best_j < length lines -> forall m. best_j < m < length lines -> slope lines[best_j] <. slope lines[m] };
