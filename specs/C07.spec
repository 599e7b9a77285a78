@files src/lib/hyper-graph.cc src/lib/sparse-map.cc src/lib/cfg-data.cc
@include sparse.inc
@heapclass travatar::HyperNode travatar::HyperEdge
@prelude
let rec ghost function dotvm (l: sv) (r: fmap int real) (n: int) : real requires { 0 <= n <= length l } variant { n }
= if n <= 0 then 0.0 else if fm_mem r (p1 l[n-1]) then dotvm l r (n-1) +. p2 l[n-1] *. fm_val r (p1 l[n-1]) else dotvm l r (n-1)
(* the part of the graph under consideration, with a rank that decreases from heads to tails (acyclicity) *)
constant dom : int -> bool
constant rank : int -> int
predicate graph (ed et: heap (seq int)) = forall n i. dom n -> 0 <= i < length (hget ed n) -> (hget ed n)[i] <> 0 /\ (forall j. 0 <= j < length (hget et (hget ed n)[i]) -> let t = (hget et (hget ed n)[i])[j] in t <> 0 /\ dom t /\ 0 <= rank t < rank n)
(* score of an edge plus the values of its first k tails *)
function acc (f: int -> real) (sc: heap real) (et: heap (seq int)) (e k: int) : real
axiom acc_0 : forall f sc et e. acc f sc et e 0 = hget sc e
axiom acc_s : forall f sc et e k. k >= 0 -> acc f sc et e (k+1) = acc f sc et e k +. f (hget et e)[k]
function evalue (f: int -> real) (sc: heap real) (et: heap (seq int)) (e: int) : real = acc f sc et e (length (hget et e))
(* the Viterbi score: the maximum over the edges *)
constant vv : int -> real
predicate is_vit (ed et: heap (seq int)) (sc: heap real) = forall n. dom n -> length (hget ed n) > 0 /\ vv n >. -. real_max /\ (forall i. 0 <= i < length (hget ed n) -> evalue vv sc et (hget ed n)[i] <=. vv n) /\ exists i. 0 <= i < length (hget ed n) /\ evalue vv sc et (hget ed n)[i] = vv n
predicate vmemo (v: heap real) (n: int) = hget v n = -. real_max \/ hget v n = vv n
(* sum of exponentials *)
let rec ghost function esum (s: seq real) (n: int) : real requires { 0 <= n <= length s } variant { n } = if n <= 0 then 0.0 else esum s (n-1) +. exp s[n-1]
lemma esum_s : forall s: seq real, n: int. 0 <= n < length s -> esum s (n+1) = esum s n +. exp s[n]
let rec lemma esum_pos (s: seq real) (n: int) requires { 0 < n <= length s } variant { n } ensures { esum s n >. 0.0 } = if n > 1 then esum_pos s (n-1)
function esum_sh (s: seq real) (m: real) (n: int) : real
axiom esum_sh_0 : forall s m. esum_sh s m 0 = 0.0
axiom esum_sh_s : forall s m n. 0 <= n < length s -> esum_sh s m (n+1) = esum_sh s m n +. exp (s[n] -. m)
let rec lemma esum_shift (s: seq real) (m: real) (n: int) requires { 0 <= n <= length s } variant { n } ensures { esum_sh s m n *. exp m = esum s n }
= if n > 0 then begin esum_shift s m (n-1); assert { exp (s[n-1] -. m) *. exp m = exp s[n-1] by (s[n-1] -. m) +. m = s[n-1] }; assert { esum_sh s m n = esum_sh s m (n-1) +. exp (s[n-1] -. m) by n = (n-1)+1 }; assert { esum_sh s m n *. exp m = esum_sh s m (n-1) *. exp m +. exp (s[n-1] -. m) *. exp m }; assert { esum s n = esum s (n-1) +. exp s[n-1] } end else assert { esum_sh s m n = 0.0 }
let rec lemma esum_sh_pos (s: seq real) (m: real) (n: int) requires { 0 < n <= length s } variant { n } ensures { esum_sh s m n >. 0.0 } = assert { esum_sh s m n = esum_sh s m (n-1) +. exp (s[n-1] -. m) by n = (n-1)+1 }; if n > 1 then esum_sh_pos s m (n-1)
function lse (s: seq real) : real = if length s = 0 then -. real_max else log (esum s (length s))
@fn travatar::AddLogProbs as add_log
ensures { result = lse probs }
@loop 1
invariant { 1 <= i }
invariant { forall j. 0 <= j < i -> j < length probs -> probs[j] <=. myMax }
@loop 2
invariant { 0 <= i <= length probs }
invariant { norm = esum_sh probs myMax i }
@ghost loop 2 start
assert { probs[i] -. myMax <=. 0.0 };
@fn travatar::HyperNode::CalcViterbiScore as calc_vit
requires { dom this /\ rank this >= 0 /\ graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ is_vit h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_score_ }
requires { forall n. dom n -> rank n <= rank this -> vmemo h_hyperNode_viterbi_score_ n }
ensures { result = vv this /\ hget h_hyperNode_viterbi_score_ this = vv this }
ensures { forall n. dom n -> rank n <= rank this -> vmemo h_hyperNode_viterbi_score_ n }
ensures { forall n. not (dom n) \/ rank n >= rank this -> n <> this -> hget h_hyperNode_viterbi_score_ n = hget (old h_hyperNode_viterbi_score_) n }
raises { CxxThrow -> false }
variant { rank this }
@loop 1
invariant { forall n. dom n -> rank n < rank this -> vmemo h_hyperNode_viterbi_score_ n }
invariant { forall n. not (dom n) \/ rank n >= rank this -> n <> this -> hget h_hyperNode_viterbi_score_ n = hget (old h_hyperNode_viterbi_score_) n }
invariant { forall i. 0 <= i < $i -> evalue vv h_hyperEdge_score_ h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i] <=. hget h_hyperNode_viterbi_score_ this }
invariant { hget h_hyperNode_viterbi_score_ this = -. real_max \/ exists i. 0 <= i < $i /\ evalue vv h_hyperEdge_score_ h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i] = hget h_hyperNode_viterbi_score_ this }
@loop 2
invariant { score = acc vv h_hyperEdge_score_ h_hyperEdge_tails_ edge $i }
invariant { forall n. dom n -> rank n < rank this -> vmemo h_hyperNode_viterbi_score_ n }
invariant { forall n. not (dom n) \/ rank n >= rank this -> hget h_hyperNode_viterbi_score_ n = hget (h_hyperNode_viterbi_score_ at L2) n }
@prelude2
(* inside values: 0 for leaves, otherwise the log-sum-exp over the edges, computed from the original scores sc0 *)
constant iv : int -> real
constant sc0 : heap real
constant idn : int -> int
predicate ewrites (ed: heap (seq int)) (eh: heap int) = forall n i. dom n -> 0 <= i < length (hget ed n) -> hget eh (hget ed n)[i] = n /\ forall j. 0 <= j < length (hget ed n) -> i <> j -> (hget ed n)[i] <> (hget ed n)[j]
predicate is_in (ed et: heap (seq int)) = forall n. dom n -> iv n <> -. real_max /\ (length (hget ed n) = 0 -> iv n = 0.0) /\ (length (hget ed n) > 0 -> exists s. lse s = iv n /\ length s = length (hget ed n) /\ forall i. 0 <= i < length s -> s[i] = evalue iv sc0 et (hget ed n)[i])
predicate ids_in (nid: heap int) (k: int) = forall n. dom n -> 0 <= hget nid n < k /\ forall m. dom m -> hget nid m = hget nid n -> m = n
(* a node is either untouched or done: value stored and its edges rescored *)
predicate imemo (ins: seq real) (nid: heap int) (ed et: heap (seq int)) (sc: heap real) (n: int) =
  (ins[hget nid n] = -. real_max /\ forall i. 0 <= i < length (hget ed n) -> hget sc (hget ed n)[i] = hget sc0 (hget ed n)[i]) \/
  (ins[hget nid n] = iv n /\ forall i. 0 <= i < length (hget ed n) -> hget sc (hget ed n)[i] = evalue iv sc0 et (hget ed n)[i] -. iv n)
predicate closed (ins: seq real) (nid: heap int) (ed et: heap (seq int)) = forall n i j. dom n -> ins[hget nid n] <> -. real_max -> 0 <= i < length (hget ed n) -> 0 <= j < length (hget et (hget ed n)[i]) -> ins[hget nid (hget et (hget ed n)[i])[j]] <> -. real_max
lemma seq_ext_lse : forall s t: seq real. length s = length t -> (forall i. 0 <= i < length s -> s[i] = t[i]) -> lse s = lse t
@fn travatar::HyperNode::GetInsideProb as inside_prob
requires { dom this /\ rank this >= 0 /\ graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ ewrites h_hyperNode_edges_ h_hyperEdge_head_ /\ is_in h_hyperNode_edges_ h_hyperEdge_tails_ /\ ids_in h_hyperNode_id_ (length inside) }
requires { forall n. dom n -> rank n <= rank this -> imemo inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_score_ n }
requires { closed inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ }
ensures { closed inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ }
ensures { forall n. dom n -> (old inside)[hget h_hyperNode_id_ n] <> -. real_max -> inside[hget h_hyperNode_id_ n] <> -. real_max }
ensures { result = iv this /\ inside[hget h_hyperNode_id_ this] = iv this /\ length inside = length (old inside) }
ensures { forall n. dom n -> rank n <= rank this -> imemo inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_score_ n }
ensures { forall n. dom n -> rank n >= rank this -> n <> this -> inside[hget h_hyperNode_id_ n] = (old inside)[hget h_hyperNode_id_ n] }
ensures { forall e. not (dom (hget h_hyperEdge_head_ e)) \/ rank (hget h_hyperEdge_head_ e) >= rank this -> hget h_hyperEdge_head_ e <> this -> hget h_hyperEdge_score_ e = hget (old h_hyperEdge_score_) e }
variant { rank this }
@loop 1
invariant { closed inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ }
invariant { forall n. dom n -> (old inside)[hget h_hyperNode_id_ n] <> -. real_max -> inside[hget h_hyperNode_id_ n] <> -. real_max }
invariant { forall i j. 0 <= i < $i -> 0 <= j < length (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i]) -> inside[hget h_hyperNode_id_ (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i])[j]] <> -. real_max }
invariant { length inside = length (old inside) /\ length sum_over = $i }
invariant { forall k. 0 <= k < $i -> sum_over[k] = evalue iv sc0 h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[k] }
invariant { forall n. dom n -> rank n <= rank this -> imemo inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_score_ n }
invariant { forall n. dom n -> rank n >= rank this -> inside[hget h_hyperNode_id_ n] = (old inside)[hget h_hyperNode_id_ n] }
invariant { forall e. not (dom (hget h_hyperEdge_head_ e)) \/ rank (hget h_hyperEdge_head_ e) >= rank this -> hget h_hyperEdge_score_ e = hget (old h_hyperEdge_score_) e }
@loop 2
invariant { closed inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ }
invariant { forall n. dom n -> (inside at L2)[hget h_hyperNode_id_ n] <> -. real_max -> inside[hget h_hyperNode_id_ n] <> -. real_max }
invariant { forall j. 0 <= j < $i -> inside[hget h_hyperNode_id_ (hget h_hyperEdge_tails_ edge)[j]] <> -. real_max }
invariant { length inside = length (old inside) /\ next = acc iv sc0 h_hyperEdge_tails_ edge $i }
invariant { forall n. dom n -> rank n <= rank this -> imemo inside h_hyperNode_id_ h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_score_ n }
invariant { forall n. dom n -> rank n >= rank this -> inside[hget h_hyperNode_id_ n] = (old inside)[hget h_hyperNode_id_ n] }
invariant { forall e. not (dom (hget h_hyperEdge_head_ e)) \/ rank (hget h_hyperEdge_head_ e) >= rank this -> hget h_hyperEdge_score_ e = hget (old h_hyperEdge_score_) e }
@loop 3
invariant { 0 <= i <= length sum_over }
invariant { forall k. 0 <= k < i -> hget h_hyperEdge_score_ (hget h_hyperNode_edges_ this)[k] = sum_over[k] -. iv this }
invariant { forall e. hget h_hyperEdge_head_ e <> this -> hget h_hyperEdge_score_ e = hget (h_hyperEdge_score_ at L3) e }
@prelude2
(* outside values: 0 for the root (id 0), -max for nodes nobody uses, otherwise log-sum-exp over the edges using the node *)
constant ov : int -> real
constant top : int
predicate revgraph (rv: seq (seq int)) (nid eh: heap int) = forall n i. dom n -> 0 <= hget nid n < length rv /\ rank n <= top /\ (0 <= i < length rv[hget nid n] -> let e = rv[hget nid n][i] in e <> 0 /\ hget eh e <> 0 /\ dom (hget eh e) /\ rank (hget eh e) > rank n)
predicate is_out (rv: seq (seq int)) (nid eh: heap int) (sc: heap real) = forall n. dom n -> (hget nid n = 0 -> ov n = 0.0) /\ (hget nid n <> 0 -> length rv[hget nid n] = 0 -> ov n = -. real_max) /\ (hget nid n <> 0 -> length rv[hget nid n] > 0 -> exists s. lse s = ov n /\ length s = length rv[hget nid n] /\ forall i. 0 <= i < length s -> s[i] = hget sc rv[hget nid n][i] +. ov (hget eh rv[hget nid n][i]))
predicate omemo (out: seq real) (nid: heap int) = forall n. dom n -> out[hget nid n] = -. real_max \/ out[hget nid n] = ov n
@fn travatar::HyperNode::GetOutsideProb as outside_prob
requires { dom this /\ revgraph all_edges h_hyperNode_id_ h_hyperEdge_head_ /\ is_out all_edges h_hyperNode_id_ h_hyperEdge_head_ h_hyperEdge_score_ /\ ids_in h_hyperNode_id_ (length outside) }
requires { omemo outside h_hyperNode_id_ }
ensures { result = ov this /\ length outside = length (old outside) }
ensures { omemo outside h_hyperNode_id_ }
variant { top - rank this }
@loop 1
invariant { length outside = length (old outside) /\ omemo outside h_hyperNode_id_ }
invariant { length sum_over = $i /\ forall k. 0 <= k < $i -> sum_over[k] = hget h_hyperEdge_score_ all_edges[hget h_hyperNode_id_ this][k] +. ov (hget h_hyperEdge_head_ all_edges[hget h_hyperNode_id_ this][k]) }
@prelude2
(* the edges using node id n, in order, after k whole edges and j tails of the next one *)
function rl (es: seq int) (et: heap (seq int)) (nid: heap int) (k j n: int) : seq int
axiom rl_00 : forall es et nid n. rl es et nid 0 0 n = (empty: seq int)
axiom rl_k0 : forall es et nid k n. 0 <= k < length es -> rl es et nid (k+1) 0 n = rl es et nid k (length (hget et es[k])) n
axiom rl_kj : forall es et nid k j n. 0 <= k < length es -> 0 <= j < length (hget et es[k]) -> rl es et nid k (j+1) n = (if hget nid (hget et es[k])[j] = n then snoc (rl es et nid k j n) es[k] else rl es et nid k j n)
predicate is_rev (rv: seq (seq int)) (g: hyperGraph) (et: heap (seq int)) (nid: heap int) = length rv = length (hyperGraph_nodes_ g) /\ forall n. 0 <= n < length rv -> rv[n] = rl (hyperGraph_edges_ g) et nid (length (hyperGraph_edges_ g)) 0 n
predicate wfg (g: hyperGraph) (nid eid eh: heap int) (ed et: heap (seq int)) = let ns = hyperGraph_nodes_ g in let es = hyperGraph_edges_ g in
  (forall i. 0 <= i < length ns -> ns[i] <> 0 /\ dom ns[i] /\ hget nid ns[i] = i) /\ (forall n. dom n -> 0 <= hget nid n < length ns /\ ns[hget nid n] = n) /\
  (forall i. 0 <= i < length es -> es[i] <> 0 /\ hget eid es[i] = i /\ dom (hget eh es[i]) /\ exists k. 0 <= k < length (hget ed (hget eh es[i])) /\ (hget ed (hget eh es[i]))[k] = es[i]) /\
  (forall i j. 0 <= i < length es -> 0 <= j < length (hget et es[i]) -> (hget et es[i])[j] <> 0 /\ dom (hget et es[i])[j])
let rec lemma rl_mem (g: hyperGraph) (nid eid eh: heap int) (ed et: heap (seq int)) (k j n m: int)
  requires { wfg g nid eid eh ed et /\ 0 <= k <= length (hyperGraph_edges_ g) /\ (k < length (hyperGraph_edges_ g) -> 0 <= j <= length (hget et (hyperGraph_edges_ g)[k])) /\ (k = length (hyperGraph_edges_ g) -> j = 0) }
  requires { 0 <= m < length (rl (hyperGraph_edges_ g) et nid k j n) }
  variant { k, j }
  ensures { exists a b. 0 <= a < length (hyperGraph_edges_ g) /\ (rl (hyperGraph_edges_ g) et nid k j n)[m] = (hyperGraph_edges_ g)[a] /\ 0 <= b < length (hget et (hyperGraph_edges_ g)[a]) /\ hget nid (hget et (hyperGraph_edges_ g)[a])[b] = n }
= let es = hyperGraph_edges_ g in
  if j > 0 then begin
    assert { rl es et nid k j n = (if hget nid (hget et es[k])[j-1] = n then snoc (rl es et nid k (j-1) n) es[k] else rl es et nid k (j-1) n) by j = (j-1)+1 };
    if m < length (rl es et nid k (j-1) n) then rl_mem g nid eid eh ed et k (j-1) n m end
  else if k > 0 then begin assert { rl es et nid k 0 n = rl es et nid (k-1) (length (hget et es[k-1])) n by k = (k-1)+1 }; rl_mem g nid eid eh ed et (k-1) (length (hget et es[k-1])) n m end
(* scores after normalisation by the inside values *)
constant sc1 : heap real
predicate is_sc1 (et: heap (seq int)) (eh: heap int) = forall e. hget sc1 e = evalue iv sc0 et e -. iv (hget eh e)
predicate reach (ed et: heap (seq int)) (r: int) = dom r /\ rank r <= top /\ forall n. dom n -> n <> r -> exists h i j. dom h /\ rank n < rank h <= top /\ 0 <= i < length (hget ed h) /\ 0 <= j < length (hget et (hget ed h)[i]) /\ (hget et (hget ed h)[i])[j] = n
let rec lemma all_done (ins: seq real) (nid: heap int) (ed et: heap (seq int)) (r n: int)
  requires { closed ins nid ed et /\ reach ed et r /\ dom n /\ ins[hget nid r] <> -. real_max } variant { top - rank n }
  ensures { ins[hget nid n] <> -. real_max }
= if n <> r then begin let h, i, j = any (int, int, int) ensures { let (h, i, j) = result in dom h /\ rank n < rank h <= top /\ 0 <= i < length (hget ed h) /\ 0 <= j < length (hget et (hget ed h)[i]) /\ (hget et (hget ed h)[i])[j] = n } in all_done ins nid ed et r h end
@fn travatar::HyperGraph::GetReversedEdges as rev_edges
requires { wfg this h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ }
ensures { is_rev result this h_hyperEdge_tails_ h_hyperNode_id_ }
@loop 1
invariant { length ret = length (hyperGraph_nodes_ this) /\ forall n. 0 <= n < length ret -> ret[n] = rl (hyperGraph_edges_ this) h_hyperEdge_tails_ h_hyperNode_id_ $i 0 n }
@loop 2
invariant { length ret = length (hyperGraph_nodes_ this) /\ forall n. 0 <= n < length ret -> ret[n] = rl (hyperGraph_edges_ this) h_hyperEdge_tails_ h_hyperNode_id_ (hget h_hyperEdge_id_ edge) $i n }
@prelude2
let lemma rev_is_graph (rv: seq (seq int)) (g: hyperGraph) (nid eid eh: heap int) (ed et: heap (seq int))
  requires { wfg g nid eid eh ed et /\ graph ed et /\ is_rev rv g et nid /\ (forall n. dom n -> rank n <= top) }
  ensures { revgraph rv nid eh }
= let es = hyperGraph_edges_ g in
  assert { forall n i. dom n -> 0 <= i < length rv[hget nid n] -> let e = rv[hget nid n][i] in e <> 0 /\ hget eh e <> 0 /\ dom (hget eh e) /\ rank (hget eh e) > rank n
    by rv[hget nid n] = rl es et nid (length es) 0 (hget nid n)
    so exists a b. 0 <= a < length es /\ e = es[a] /\ 0 <= b < length (hget et es[a]) /\ hget nid (hget et es[a])[b] = hget nid n
    so let t = (hget et es[a])[b] in dom t /\ t = (hyperGraph_nodes_ g)[hget nid t] = n
    so exists k. 0 <= k < length (hget ed (hget eh es[a])) /\ (hget ed (hget eh es[a]))[k] = es[a] }
let lemma out_same (rv: seq (seq int)) (g: hyperGraph) (nid eid eh: heap int) (ed et: heap (seq int)) (sc: heap real)
  requires { wfg g nid eid eh ed et /\ is_rev rv g et nid /\ is_out rv nid eh sc1 }
  requires { forall i. 0 <= i < length (hyperGraph_edges_ g) -> hget sc (hyperGraph_edges_ g)[i] = hget sc1 (hyperGraph_edges_ g)[i] }
  ensures { is_out rv nid eh sc }
= let es = hyperGraph_edges_ g in
  assert { forall n i. 0 <= n < length rv -> 0 <= i < length rv[n] -> hget sc rv[n][i] = hget sc1 rv[n][i] by rv[n] = rl es et nid (length es) 0 n so exists a b. 0 <= a < length es /\ rv[n][i] = es[a] /\ 0 <= b < length (hget et es[a]) }
@fn travatar::HyperGraph::InsideOutsideNormalize as in_out
requires { length (hyperGraph_nodes_ this) > 0 /\ wfg this h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ }
requires { graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ ewrites h_hyperNode_edges_ h_hyperEdge_head_ /\ is_in h_hyperNode_edges_ h_hyperEdge_tails_ }
requires { forall n. dom n -> 0 <= rank n <= rank (hyperGraph_nodes_ this)[0] <= top }
requires { reach h_hyperNode_edges_ h_hyperEdge_tails_ (hyperGraph_nodes_ this)[0] }
requires { forall e. hget h_hyperEdge_score_ e = hget sc0 e }
requires { is_sc1 h_hyperEdge_tails_ h_hyperEdge_head_ }
requires { forall rv. is_rev rv this h_hyperEdge_tails_ h_hyperNode_id_ -> is_out rv h_hyperNode_id_ h_hyperEdge_head_ sc1 }
ensures { forall i. 0 <= i < length (hyperGraph_edges_ this) -> hget h_hyperEdge_score_ (hyperGraph_edges_ this)[i] = hget sc1 (hyperGraph_edges_ this)[i] +. ov (hget h_hyperEdge_head_ (hyperGraph_edges_ this)[i]) }
ensures { hyperGraph_nodes_ this = hyperGraph_nodes_ (old this) /\ hyperGraph_edges_ this = hyperGraph_edges_ (old this) /\ hyperGraph_words_ this = hyperGraph_words_ (old this) }
@ghost loop 1 before
assert { forall n. dom n -> inside[hget h_hyperNode_id_ n] <> -. real_max };
assert { forall i. 0 <= i < length (hyperGraph_edges_ this) -> hget h_hyperEdge_score_ (hyperGraph_edges_ this)[i] = hget sc1 (hyperGraph_edges_ this)[i] };
assert { is_out rev_edges h_hyperNode_id_ h_hyperEdge_head_ h_hyperEdge_score_ };
@loop 1
invariant { length outside = length (hyperGraph_nodes_ this) /\ omemo outside h_hyperNode_id_ /\ length new_scores = length (hyperGraph_edges_ this) }
invariant { forall k. 0 <= k < $i -> new_scores[k] = hget sc1 (hyperGraph_edges_ this)[k] +. ov (hget h_hyperEdge_head_ (hyperGraph_edges_ this)[k]) }
@loop 2
invariant { 0 <= i <= length new_scores }
invariant { forall k. 0 <= k < i -> hget h_hyperEdge_score_ (hyperGraph_edges_ this)[k] = hget sc1 (hyperGraph_edges_ this)[k] +. ov (hget h_hyperEdge_head_ (hyperGraph_edges_ this)[k]) }
@fn travatar::operator* sig=[double(constumap<int,double>&,constSparseVector] as sm_dotv
ensures { result = dotvm (sparseVector_impl_ rhs) lhs (length (sparseVector_impl_ rhs)) }
@loop 1
invariant { ret = dotvm (sparseVector_impl_ rhs) lhs $i }
@fn travatar::HyperGraph::ScoreEdges sig=[constWeights] as score_edges
requires { forall i. 0 <= i < length (hyperGraph_edges_ this) -> (hyperGraph_edges_ this)[i] <> 0 }
ensures { forall i. 0 <= i < length (hyperGraph_edges_ this) -> let e = (hyperGraph_edges_ this)[i] in hget h_hyperEdge_score_ e = dotvm (sparseVector_impl_ (hget h_hyperEdge_features_ e)) (weights_current_ weights) (length (sparseVector_impl_ (hget h_hyperEdge_features_ e))) }
ensures { forall e. (forall i. 0 <= i < length (hyperGraph_edges_ this) -> (hyperGraph_edges_ this)[i] <> e) -> hget h_hyperEdge_score_ e = hget (old h_hyperEdge_score_) e }
@loop 1
invariant { forall i. 0 <= i < $i -> let e = (hyperGraph_edges_ this)[i] in hget h_hyperEdge_score_ e = dotvm (sparseVector_impl_ (hget h_hyperEdge_features_ e)) (weights_current_ weights) (length (sparseVector_impl_ (hget h_hyperEdge_features_ e))) }
invariant { forall e. (forall i. 0 <= i < $i -> (hyperGraph_edges_ this)[i] <> e) -> hget h_hyperEdge_score_ e = hget (old h_hyperEdge_score_) e }
@fn travatar::operator+= sig=[SparseVector&(SparseVector&] as sv_addeq
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { sorted (sparseVector_impl_ lhs) /\ result = lhs }
ensures { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (old lhs)) k +. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { sorted (sparseVector_impl_ lhs) }
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (lhs at Entry)) k +. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr, length (sparseVector_impl_ lhs) - itl }

@prelude2
function fsum (fe: heap sparseVector) (es: seq int) (n k: int) : real
axiom fsum_0 : forall fe es k. fsum fe es 0 k = 0.0
axiom fsum_s : forall fe es n k. 0 <= n < length es -> fsum fe es (n+1) k = fsum fe es n k +. vg (sparseVector_impl_ (hget fe es[n])) k
@fn travatar::HyperPath::CalcFeatures as path_feats
requires { forall i. 0 <= i < length (hyperPath_edges_ this) -> (hyperPath_edges_ this)[i] <> 0 /\ sorted (sparseVector_impl_ (hget h_hyperEdge_features_ (hyperPath_edges_ this)[i])) }
ensures { sorted (sparseVector_impl_ result) /\ forall k. vg (sparseVector_impl_ result) k = fsum h_hyperEdge_features_ (hyperPath_edges_ this) (length (hyperPath_edges_ this)) k }
@loop 1
invariant { sorted (sparseVector_impl_ ret) /\ forall k. vg (sparseVector_impl_ ret) k = fsum h_hyperEdge_features_ (hyperPath_edges_ this) $i k }
@fn travatar::HyperPath::GetFeatures as path_feats2
requires { forall i. 0 <= i < length (hyperPath_edges_ this) -> (hyperPath_edges_ this)[i] <> 0 /\ sorted (sparseVector_impl_ (hget h_hyperEdge_features_ (hyperPath_edges_ this)[i])) }
ensures { sorted (sparseVector_impl_ result) /\ forall k. vg (sparseVector_impl_ result) k = fsum h_hyperEdge_features_ (hyperPath_edges_ this) (length (hyperPath_edges_ this)) k }
@loop 1
invariant { sorted (sparseVector_impl_ ret) /\ forall k. vg (sparseVector_impl_ ret) k = fsum h_hyperEdge_features_ (hyperPath_edges_ this) $i k }
@fn travatar::HyperPath::AddEdges as add_edges
ensures { hyperPath_edges_ this == hyperPath_edges_ (old this) ++ edges }
@loop 1
invariant { length (hyperPath_edges_ this) = length (hyperPath_edges_ (old this)) + $i }
invariant { forall k. 0 <= k < length (hyperPath_edges_ (old this)) -> (hyperPath_edges_ this)[k] = (hyperPath_edges_ (old this))[k] }
invariant { forall k. length (hyperPath_edges_ (old this)) <= k < length (hyperPath_edges_ this) -> (hyperPath_edges_ this)[k] = edges[k - length (hyperPath_edges_ (old this))] }
@prelude2
(* a path lists the edges of a derivation in preorder: nx i is the position after the subtree at i, cp i j the position of its j-th child *)
constant nx : int -> int
function cp (i j: int) : int
axiom cp_0 : forall i. cp i 0 = i + 1
axiom cp_s : forall i j. j >= 0 -> cp i (j+1) = nx (cp i j)
predicate path_ok (es: seq int) (et: heap (seq int)) (eh: heap int) (td: heap (seq cfgData)) (f: int) = forall i. 0 <= i < length es -> es[i] <> 0 /\ i < nx i <= length es /\ nx i = cp i (length (hget et es[i])) /\
  (forall j. 0 <= j < length (hget et es[i]) -> i < cp i j < length es /\ (hget et es[i])[j] = hget eh es[cp i j]) /\
  (f < length (hget td es[i]) -> forall x. 0 <= x < length (cfgData_words (hget td es[i])[f]) -> - length (hget et es[i]) <= (cfgData_words (hget td es[i])[f])[x])
(* the words the subtree at i yields, and the prefix of them given by the first n target items of its edge *)
function yl (es: seq int) (td: heap (seq cfgData)) (f i: int) : seq int
function pre (es: seq int) (td: heap (seq cfgData)) (f i n: int) : seq int
axiom yl_def : forall es td f i. yl es td f i = if f >= length (hget td es[i]) then (empty: seq int) else pre es td f i (length (cfgData_words (hget td es[i])[f]))
axiom pre_0 : forall es td f i. pre es td f i 0 = (empty: seq int)
axiom pre_s : forall es td f i n. n >= 0 -> pre es td f i (n+1) = (let w = (cfgData_words (hget td es[i])[f])[n] in if w >= 0 then snoc (pre es td f i n) w else pre es td f i n ++ yl es td f (cp i (-1 - w)))
@fn travatar::CfgData::AppendChild as append_child
ensures { cfgData_words this = cfgData_words (old this) ++ cfgData_words child }
ensures { cfgData_syms this = snoc (cfgData_syms (old this)) (cfgData_label child) /\ cfgData_label this = cfgData_label (old this) }
@loop 1
invariant { length (cfgData_words this) = length (cfgData_words (old this)) + $i }
invariant { forall k. 0 <= k < length (cfgData_words (old this)) -> (cfgData_words this)[k] = (cfgData_words (old this))[k] }
invariant { forall k. length (cfgData_words (old this)) <= k < length (cfgData_words this) -> (cfgData_words this)[k] = (cfgData_words child)[k - length (cfgData_words (old this))] }
@ghost loop 1 after
assert { cfgData_words this == cfgData_words (this at Entry) ++ cfgData_words child };
@fn travatar::HyperPath::CalcTranslation sig=[int&] as calc_trans
requires { 0 <= idx < length (hyperPath_edges_ this) /\ factor >= 0 }
requires { path_ok (hyperPath_edges_ this) h_hyperEdge_tails_ h_hyperEdge_head_ h_hyperEdge_trg_data_ factor }
ensures { idx = nx (old idx) }
ensures { cfgData_words result = yl (hyperPath_edges_ this) h_hyperEdge_trg_data_ factor (old idx) /\ cfgData_label result = -1 }
variant { length (hyperPath_edges_ this) - idx }
raises { CxxThrow -> false }
@loop 1
invariant { my_id = old idx /\ idx = cp my_id $i /\ length child_trans = $i }
invariant { forall j. 0 <= j < $i -> cfgData_words child_trans[j] = yl (hyperPath_edges_ this) h_hyperEdge_trg_data_ factor (cp my_id j) }
@loop 2
invariant { cfgData_words ret = pre (hyperPath_edges_ this) h_hyperEdge_trg_data_ factor my_id $i /\ cfgData_label ret = -1 }
@fn travatar::CfgData::GetNontermPositions as nonterm_pos
ensures { forall k. 0 <= k < length result -> 0 <= result[k] < length (cfgData_words this) /\ (cfgData_words this)[result[k]] < 0 }
ensures { forall a b. 0 <= a < b < length result -> result[a] < result[b] }
ensures { forall p. 0 <= p < length (cfgData_words this) -> (cfgData_words this)[p] < 0 -> exists k. 0 <= k < length result /\ result[k] = p }
@loop 1
invariant { 0 <= i <= length (cfgData_words this) }
invariant { forall k. 0 <= k < length ret -> 0 <= ret[k] < i /\ (cfgData_words this)[ret[k]] < 0 }
invariant { forall a b. 0 <= a < b < length ret -> ret[a] < ret[b] }
invariant { forall p. 0 <= p < i -> (cfgData_words this)[p] < 0 -> exists k. 0 <= k < length ret /\ ret[k] = p }
@ghost loop 1 end
assert { (cfgData_words this)[i] < 0 -> ret[length ret - 1] = i };
assert { forall p k. 0 <= p < i -> 0 <= k < length (ret at I1) -> (ret at I1)[k] = p -> ret[k] = p };
@prelude2
predicate ordered (w: seq int) (n: int) (m: int) = (forall i. 0 <= i < n -> w[i] < 0 -> m <= w[i] <= -1) /\ (forall i. 0 <= i < n -> w[i] < -1 -> exists j. 0 <= j < i /\ w[j] = w[i] + 1) /\ (forall i j. 0 <= i < j < n -> w[i] < 0 -> w[j] < 0 -> w[j] < w[i])
@fn travatar::CfgData::NontermsAreOrdered as nt_ordered
ensures { result <-> exists m. ordered (cfgData_words this) (length (cfgData_words this)) m }
@loop 1
invariant { 0 <= i <= length (cfgData_words this) /\ min_val <= 0 }
invariant { ordered (cfgData_words this) i min_val }
invariant { min_val < 0 -> exists j. 0 <= j < i /\ (cfgData_words this)[j] = min_val }
@fn travatar::HyperGraph::GetLabeledSpans as labeled_spans
requires { forall i. 0 <= i < length (hyperGraph_nodes_ this) -> (hyperGraph_nodes_ this)[i] <> 0 }
ensures { forall i. 0 <= i < length (hyperGraph_nodes_ this) -> (forall j. 0 <= j < i -> hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[j] <> hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i]) -> let k = hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i] in fm_mem result k /\ fm_val result k = hget h_hyperNode_sym_ (hyperGraph_nodes_ this)[i] }
ensures { forall k. fm_mem result k -> exists i. 0 <= i < length (hyperGraph_nodes_ this) /\ hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i] = k }
@loop 1
invariant { forall i. length (hyperGraph_nodes_ this) - $i <= i < length (hyperGraph_nodes_ this) -> (forall j. length (hyperGraph_nodes_ this) - $i <= j < i -> hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[j] <> hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i]) -> let k = hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i] in fm_mem ret k /\ fm_val ret k = hget h_hyperNode_sym_ (hyperGraph_nodes_ this)[i] }
invariant { forall k. fm_mem ret k -> exists i. 0 <= i < length (hyperGraph_nodes_ this) /\ hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[i] = k }
