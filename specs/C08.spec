@files src/lib/hyper-graph.cc src/lib/alignment.cc src/lib/rule-composer.cc src/lib/forest-extractor.cc
@heapclass travatar::HyperNode travatar::HyperEdge travatar::RuleEdge
@prelude
(* the parse under consideration, with a rank that decreases from heads to tails (acyclicity) *)
constant dom : int -> bool
constant rank : int -> int
predicate graph (ed et: heap (seq int)) = forall n i. dom n -> 0 <= i < length (hget ed n) -> (hget ed n)[i] <> 0 /\ (forall j. 0 <= j < length (hget et (hget ed n)[i]) -> let t = (hget et (hget ed n)[i])[j] in t <> 0 /\ dom t /\ 0 <= rank t < rank n)
(* target positions covered by a node: the aligned positions of a word, the union over the children otherwise *)
constant cov : int -> int -> bool
predicate is_cov (ws: seq (fset int)) (ed et: heap (seq int)) (sp: heap (pair int int)) = forall n. dom n -> 0 <= p1 (hget sp n) /\
  (length (hget ed n) = 0 -> forall v. cov n v <-> (p1 (hget sp n) < length ws /\ fs_mem ws[p1 (hget sp n)] v)) /\
  (length (hget ed n) > 0 -> forall v. cov n v <-> exists j. 0 <= j < length (hget et (hget ed n)[0]) /\ cov (hget et (hget ed n)[0])[j] v)
predicate cmemo (has: heap bool) (ts: heap (fset int)) (n: int) = hget has n -> forall v. fs_mem (hget ts n) v <-> cov n v
@fn travatar::HyperNode::CalculateTrgSpan as calc_span
requires { dom this /\ rank this >= 0 /\ graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ is_cov word_spans h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_src_span_ }
requires { forall n. dom n -> rank n <= rank this -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
requires { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
ensures { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
ensures { result = hget h_hyperNode_trg_span_ this /\ forall v. fs_mem result v <-> cov this v }
ensures { hget h_hyperNode_has_trg_span_ this }
ensures { forall n. dom n -> rank n <= rank this -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
ensures { forall n. not (dom n) \/ rank n >= rank this -> n <> this -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n /\ hget h_hyperNode_has_trg_span_ n = hget (old h_hyperNode_has_trg_span_) n }
ensures { forall n. hget (old h_hyperNode_has_trg_span_) n -> hget h_hyperNode_has_trg_span_ n }
raises { CxxThrow -> false }
variant { rank this }
@loop 1
invariant { forall n. dom n -> rank n < rank this -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
invariant { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
invariant { hget h_hyperNode_has_trg_span_ this /\ forall n. hget (old h_hyperNode_has_trg_span_) n -> hget h_hyperNode_has_trg_span_ n }
invariant { forall n. not (dom n) \/ rank n >= rank this -> n <> this -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n /\ hget h_hyperNode_has_trg_span_ n = hget (old h_hyperNode_has_trg_span_) n }
invariant { forall v. fs_mem (hget h_hyperNode_trg_span_ this) v <-> exists j. 0 <= j < $i /\ cov (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[0])[j] v }
@loop 2
invariant { forall n. n <> this -> hget h_hyperNode_trg_span_ n = hget (h_hyperNode_trg_span_ at L2) n }
invariant { hget h_hyperNode_has_trg_span_ this }
invariant { forall v. fs_mem (hget h_hyperNode_trg_span_ this) v <-> fs_mem (hget (h_hyperNode_trg_span_ at L2) this) v \/ exists k. 0 <= k < $i /\ (fs_keys (hget (h_hyperNode_trg_span_ at L2) child))[k] = v }
@ghost loop 1 end
assert { forall v. fs_mem (hget h_hyperNode_trg_span_ this) v <-> fs_mem (hget (h_hyperNode_trg_span_ at I1) this) v \/ cov child v };
assert { forall j. 0 <= j < $i+1 <-> (0 <= j < $i \/ j = $i) };
@prelude2
(* target positions covered outside a node: by the siblings of the node and of its ancestors *)
constant outv : int -> int -> bool
predicate is_outv (ed et: heap (seq int)) = forall n i j. dom n -> 0 <= i < length (hget ed n) -> 0 <= j < length (hget et (hget ed n)[i]) -> let tl = hget et (hget ed n)[i] in forall v. outv tl[j] v <-> (outv n v \/ exists k. 0 <= k < length tl /\ tl[k] <> tl[j] /\ cov tl[k] v)
(* GHKM: a node is on the frontier if its span is not empty and the closure of its span is disjoint from the complement span *)
predicate onfront (n: int) = (exists v. cov n v) /\ forall a b v. cov n a -> cov n b -> a <= v <= b -> not (outv n v)
predicate fmemo (fr: heap int) (ed: heap (seq int)) (n: int) = (hget fr n = 85 \/ hget fr n = 89 \/ hget fr n = 78) /\ (hget fr n <> 85 -> (hget fr n = 89 <-> (length (hget ed n) > 0 /\ onfront n)))
predicate fclosed (fr: heap int) (ed et: heap (seq int)) (n: int) = hget fr n <> 85 -> forall i j. 0 <= i < length (hget ed n) -> 0 <= j < length (hget et (hget ed n)[i]) -> hget fr (hget et (hget ed n)[i])[j] <> 85
@fn travatar::HyperNode::CalculateFrontier as frontier
requires { dom this /\ rank this >= 0 /\ graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ is_cov src_spans h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_src_span_ /\ is_outv h_hyperNode_edges_ h_hyperEdge_tails_ }
requires { forall n. dom n -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
requires { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
requires { forall v. fs_mem complement v <-> outv this v }
requires { forall n. dom n -> fmemo h_hyperNode_frontier_ h_hyperNode_edges_ n }
requires { forall n. dom n -> rank n <= rank this -> fclosed h_hyperNode_frontier_ h_hyperNode_edges_ h_hyperEdge_tails_ n }
ensures { result = hget h_hyperNode_frontier_ this /\ result <> 85 /\ (result = 89 <-> (length (hget h_hyperNode_edges_ this) > 0 /\ onfront this)) }
ensures { forall n. dom n -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
ensures { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
ensures { forall n. dom n -> fmemo h_hyperNode_frontier_ h_hyperNode_edges_ n }
ensures { forall n. dom n -> rank n <= rank this -> fclosed h_hyperNode_frontier_ h_hyperNode_edges_ h_hyperEdge_tails_ n }
ensures { forall n. dom n -> rank n >= rank this -> n <> this -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
ensures { forall n. dom n -> hget (old h_hyperNode_frontier_) n <> 85 -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
raises { CxxThrow -> false }
variant { rank this }
@loop 1
invariant { let k = fs_keys (hget h_hyperNode_trg_span_ this) in k[0] <= i <= k[length k - 1] + 1 }
invariant { hget h_hyperNode_frontier_ this = 89 \/ hget h_hyperNode_frontier_ this = 78 }
invariant { hget h_hyperNode_frontier_ this = 89 -> forall v. (fs_keys (hget h_hyperNode_trg_span_ this))[0] <= v < i -> not (fs_mem complement v) }
invariant { hget h_hyperNode_frontier_ this = 78 -> exists v. let k = fs_keys (hget h_hyperNode_trg_span_ this) in k[0] <= v <= k[length k - 1] /\ fs_mem complement v }
invariant { forall n. n <> this -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
variant { let k = fs_keys (hget h_hyperNode_trg_span_ this) in k[length k - 1] + 1 - i }
@loop 2
invariant { forall n. dom n -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
invariant { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
invariant { forall n. dom n -> fmemo h_hyperNode_frontier_ h_hyperNode_edges_ n }
invariant { hget h_hyperNode_frontier_ this <> 85 }
invariant { forall n. dom n -> rank n < rank this -> fclosed h_hyperNode_frontier_ h_hyperNode_edges_ h_hyperEdge_tails_ n }
invariant { forall n. dom n -> rank n >= rank this -> n <> this -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
invariant { forall n. dom n -> hget (old h_hyperNode_frontier_) n <> 85 -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
invariant { forall i j. 0 <= i < $i -> 0 <= j < length (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i]) -> hget h_hyperNode_frontier_ (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ this)[i])[j] <> 85 }
@loop 3
invariant { forall n. dom n -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
invariant { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
invariant { forall n. dom n -> fmemo h_hyperNode_frontier_ h_hyperNode_edges_ n }
invariant { hget h_hyperNode_frontier_ this <> 85 }
invariant { forall n. dom n -> rank n < rank this -> fclosed h_hyperNode_frontier_ h_hyperNode_edges_ h_hyperEdge_tails_ n }
invariant { forall n. dom n -> rank n >= rank this -> n <> this -> hget h_hyperNode_frontier_ n = hget (old h_hyperNode_frontier_) n }
invariant { forall n. dom n -> hget (h_hyperNode_frontier_ at L3) n <> 85 -> hget h_hyperNode_frontier_ n = hget (h_hyperNode_frontier_ at L3) n }
invariant { forall j. 0 <= j < $i -> hget h_hyperNode_frontier_ (hget h_hyperEdge_tails_ edge)[j] <> 85 }
@loop 4
invariant { forall n. dom n -> cmemo h_hyperNode_has_trg_span_ h_hyperNode_trg_span_ n }
invariant { forall n. dom n -> not (hget h_hyperNode_has_trg_span_ n) -> hget h_hyperNode_trg_span_ n = (fs_empty: fset int) }
invariant { forall v. fs_mem my_comp v <-> fs_mem complement v \/ exists k. 0 <= k < $i /\ (hget h_hyperEdge_tails_ edge)[k] <> child /\ cov (hget h_hyperEdge_tails_ edge)[k] v }
@loop 5
invariant { forall v. fs_mem my_comp v <-> fs_mem (my_comp at L5) v \/ exists k. 0 <= k < $i /\ (fs_keys (hget h_hyperNode_trg_span_ child2))[k] = v }
@ghost loop 4 end
assert { forall v. (exists k. 0 <= k < length (fs_keys (hget h_hyperNode_trg_span_ child2)) /\ (fs_keys (hget h_hyperNode_trg_span_ child2))[k] = v) <-> fs_mem (hget h_hyperNode_trg_span_ child2) v };
assert { child2 <> child -> forall v. fs_mem (hget h_hyperNode_trg_span_ child2) v <-> cov child2 v };
assert { forall v. child2 <> child -> (fs_mem my_comp v <-> fs_mem (my_comp at I4) v \/ cov child2 v) };
assert { forall v. (exists k. 0 <= k < $i+1 /\ (hget h_hyperEdge_tails_ edge)[k] <> child /\ cov (hget h_hyperEdge_tails_ edge)[k] v) <-> ((exists k. 0 <= k < $i /\ (hget h_hyperEdge_tails_ edge)[k] <> child /\ cov (hget h_hyperEdge_tails_ edge)[k] v) \/ (child2 <> child /\ cov child2 v)) };
assert { forall v. child2 = child -> (fs_mem my_comp v <-> fs_mem (my_comp at I4) v) };
@fn travatar::HyperNode::GetTrgCovered as node_covered
ensures { result = tcov this h_hyperNode_id_ h_hyperNode_trg_span_ }
@prelude
function tcov (n: int) (nid: heap int) (ts: heap (fset int)) : pair int int = let k = fs_keys (hget ts n) in if hget nid n = 0 then mkp 0 2147483647 else if length k = 0 then mkp (-1) (-1) else mkp k[0] (k[length k - 1] + 1)
@fn travatar::Alignment::GetSrcAlignments as src_aligns
requires { forall a. fs_mem (alignment_vec_ this) a -> p1 a >= 0 }
ensures { forall i v. 0 <= i < length result -> (fs_mem result[i] v <-> fs_mem (alignment_vec_ this) (mkp i v)) }
ensures { forall a. fs_mem (alignment_vec_ this) a -> p1 a < length result }
@loop 1
invariant { forall i v. 0 <= i < length ret -> (fs_mem ret[i] v <-> exists k. 0 <= k < $i /\ (fs_keys (alignment_vec_ this))[k] = mkp i v) }
invariant { forall k. 0 <= k < $i -> 0 <= p1 (fs_keys (alignment_vec_ this))[k] < length ret }
@fn travatar::Alignment::Contains as al_contains
ensures { result <-> fs_mem (alignment_vec_ this) (mkp i j) }
@fn travatar::Alignment::AddAlignment as al_add
ensures { forall a. fs_mem (alignment_vec_ this) a <-> a = al \/ fs_mem (alignment_vec_ (old this)) a }
@fn GetSpanLabel as span_label
ensures { fm_mem trg_labs trg_span -> result = fm_val trg_labs trg_span }
ensures { not (fm_mem trg_labs trg_span) -> result = -1 }
@prelude2
(* substitution of values for the placeholders -1, -2, ... of a word sequence *)
function sub (s: int -> seq int) (w: seq int) (n: int) : seq int
axiom sub_0 : forall s w. sub s w 0 = (empty: seq int)
axiom sub_s : forall s w n. 0 <= n < length w -> sub s w (n+1) = (if w[n] >= 0 then snoc (sub s w n) w[n] else sub s w n ++ s (-1 - w[n]))
let rec lemma sub_pre (s: int -> seq int) (v w: seq int) (n: int) requires { 0 <= n <= length v /\ n <= length w /\ forall i. 0 <= i < n -> v[i] = w[i] } ensures { sub s v n = sub s w n } variant { n }
= if n > 0 then begin sub_pre s v w (n-1); assert { sub s v n = (if v[n-1] >= 0 then snoc (sub s v (n-1)) v[n-1] else sub s v (n-1) ++ s (-1 - v[n-1])) by n = (n-1)+1 }; assert { sub s w n = (if w[n-1] >= 0 then snoc (sub s w (n-1)) w[n-1] else sub s w (n-1) ++ s (-1 - w[n-1])) by n = (n-1)+1 } end
lemma sub_snoc : forall s w x. let v = snoc w x in sub s v (length v) = (if x >= 0 then snoc (sub s w (length w)) x else sub s w (length w) ++ s (-1 - x))
lemma app_empty : forall s: seq int. s ++ (empty: seq int) = s by s ++ empty == s
lemma app_snoc : forall a b: seq int, x: int. snoc (a ++ b) x = a ++ snoc b x by snoc (a ++ b) x == a ++ snoc b x
lemma app_assoc : forall a b c: seq int. (a ++ b) ++ c = a ++ (b ++ c) by (a ++ b) ++ c == a ++ (b ++ c)
lemma sub_step : forall s s' w0 w c x k. 0 <= k < length c -> sub s w (length w) = w0 ++ sub s' c k -> (c[k] >= 0 -> x = c[k]) -> (c[k] < 0 -> x < 0 /\ s (-1 - x) = s' (-1 - c[k])) -> let v = snoc w x in sub s v (length v) = w0 ++ sub s' c (k+1)
(* r is p with c inserted at k, the first position whose fragment starts after c *)
predicate spliced (r p c: seq int) (hd: heap int) (sp: heap (pair int int)) (k: int) = 0 <= k <= length p /\ length r = length p + length c /\ (forall i. 0 <= i < k -> r[i] = p[i]) /\ (forall m. k <= m < k + length c -> r[m] = c[m - k]) /\ (forall m. k + length c <= m < length r -> r[m] = p[m - length c]) /\ (forall i. 0 <= i < k -> p1 (hget sp (hget hd p[i])) <= p1 (hget sp (hget hd c[0]))) /\ (k < length p -> p1 (hget sp (hget hd p[k])) > p1 (hget sp (hget hd c[0])))
(* the values that the composed rule gives to the tails of the parent: the child's translation for the replaced tail *)
constant sig : int -> seq int
constant sigc : int -> seq int
constant sigp : int -> int -> seq int
predicate is_sig (tid ct: int) (cw: int -> seq int) = (forall k. 0 <= k -> sigc k = sig (tid + k)) /\ (forall f k. 0 <= k < tid -> sigp f k = sig k) /\ (forall f. sigp f tid = sub sigc (cw f) (length (cw f))) /\ (forall f k. tid < k -> sigp f k = sig (k - 1 + ct))
function trgw (td: seq cfgData) : int -> seq int = fun i -> cfgData_words td[i]
@fn travatar::RuleComposer::ComposeEdge as compose_edge
requires { 0 < parent < nextptr /\ 0 < child < nextptr }
requires { 0 <= tail_id < length (hget h_hyperEdge_tails_ parent) }
requires { hget h_hyperEdge_head_ child = (hget h_hyperEdge_tails_ parent)[tail_id] }
requires { length (hget h_hyperEdge_trg_data_ parent) = length (hget h_hyperEdge_trg_data_ child) }
requires { length (hget h_ruleEdge_fragment_edges_ child) > 0 }
requires { forall i. 0 <= i < length (hget h_ruleEdge_fragment_edges_ parent) -> 0 < (hget h_ruleEdge_fragment_edges_ parent)[i] < nextptr /\ hget h_hyperEdge_head_ (hget h_ruleEdge_fragment_edges_ parent)[i] <> 0 }
requires { forall i. 0 <= i < length (hget h_ruleEdge_fragment_edges_ child) -> 0 < (hget h_ruleEdge_fragment_edges_ child)[i] < nextptr /\ hget h_hyperEdge_head_ (hget h_ruleEdge_fragment_edges_ child)[i] <> 0 }
requires { is_sig tail_id (length (hget h_hyperEdge_tails_ child)) (trgw (hget h_hyperEdge_trg_data_ child)) }
ensures { hget h_hyperEdge_head_ result = hget h_hyperEdge_head_ parent /\ hget h_hyperEdge_score_ result = hget h_hyperEdge_score_ parent +. hget h_hyperEdge_score_ child }
ensures { length (hget h_hyperEdge_tails_ result) = length (hget h_hyperEdge_tails_ parent) + length (hget h_hyperEdge_tails_ child) - 1 }
ensures { forall i. 0 <= i < tail_id -> (hget h_hyperEdge_tails_ result)[i] = (hget h_hyperEdge_tails_ parent)[i] }
ensures { forall m. tail_id <= m < tail_id + length (hget h_hyperEdge_tails_ child) -> (hget h_hyperEdge_tails_ result)[m] = (hget h_hyperEdge_tails_ child)[m - tail_id] }
ensures { forall m. tail_id + length (hget h_hyperEdge_tails_ child) <= m < length (hget h_hyperEdge_tails_ result) -> (hget h_hyperEdge_tails_ result)[m] = (hget h_hyperEdge_tails_ parent)[m - length (hget h_hyperEdge_tails_ child) + 1] }
ensures { length (hget h_hyperEdge_trg_data_ result) = length (hget h_hyperEdge_trg_data_ parent) }
ensures { forall f. 0 <= f < length (hget h_hyperEdge_trg_data_ parent) -> let w = cfgData_words (hget h_hyperEdge_trg_data_ result)[f] in let p = cfgData_words (hget h_hyperEdge_trg_data_ parent)[f] in sub sig w (length w) = sub (sigp f) p (length p) }
ensures { exists k. spliced (hget h_ruleEdge_fragment_edges_ result) (hget h_ruleEdge_fragment_edges_ parent) (hget h_ruleEdge_fragment_edges_ child) h_hyperEdge_head_ h_hyperNode_src_span_ k }
raises { CxxThrow -> false }
@loop 1
invariant { let p = hget h_hyperEdge_tails_ parent in let c = hget h_hyperEdge_tails_ child in length tails = length p - 1 + $i /\ (forall m. 0 <= m < tail_id -> tails[m] = p[m]) /\ (forall m. tail_id + $i <= m < length tails -> tails[m] = p[m - $i + 1]) }
invariant { let c = hget h_hyperEdge_tails_ child in (forall m. tail_id <= m < tail_id + $i -> tails[m] = c[length c - $i + m - tail_id]) }
@loop 2
invariant { length trg_data = factors }
invariant { forall f. 0 <= f < i -> let w = cfgData_words trg_data[f] in let p = cfgData_words (hget h_hyperEdge_trg_data_ parent)[f] in sub sig w (length w) = sub (sigp f) p (length p) }
invariant { forall f. i <= f < factors -> cfgData_words trg_data[f] = (empty: seq int) }
@loop 3
invariant { length trg_data = factors }
invariant { forall f. 0 <= f < factors -> f <> i -> trg_data[f] = (trg_data at L3)[f] }
invariant { let w = cfgData_words trg_data[i] in let p = cfgData_words (hget h_hyperEdge_trg_data_ parent)[i] in sub sig w (length w) = sub (sigp i) p $i }
@loop 4
invariant { length trg_data = factors }
invariant { forall f. 0 <= f < factors -> f <> i -> trg_data[f] = (trg_data at L4)[f] }
invariant { let w = cfgData_words trg_data[i] in let w0 = cfgData_words (trg_data at L4)[i] in let c = cfgData_words (hget h_hyperEdge_trg_data_ child)[i] in sub sig w (length w) = sub sig w0 (length w0) ++ sub sigc c $i }
@loop 5
invariant { 0 <= pos <= length (hget h_ruleEdge_fragment_edges_ parent) /\ length fragments = pos }
invariant { forall i. 0 <= i < pos -> fragments[i] = (hget h_ruleEdge_fragment_edges_ parent)[i] }
invariant { let p = hget h_ruleEdge_fragment_edges_ parent in let c = hget h_ruleEdge_fragment_edges_ child in forall i. 0 <= i < pos -> p1 (hget h_hyperNode_src_span_ (hget h_hyperEdge_head_ p[i])) <= p1 (hget h_hyperNode_src_span_ (hget h_hyperEdge_head_ c[0])) }
@loop 6
invariant { length fragments = pos + $i /\ (forall i. 0 <= i < pos -> fragments[i] = (hget h_ruleEdge_fragment_edges_ parent)[i]) /\ (forall m. pos <= m < pos + $i -> fragments[m] = (hget h_ruleEdge_fragment_edges_ child)[m - pos]) }
@loop 7
invariant { let c = hget h_ruleEdge_fragment_edges_ child in let p = hget h_ruleEdge_fragment_edges_ parent in let k = (pos at L7) in k <= pos <= length p /\ length fragments = pos + length c /\ (forall i. 0 <= i < k -> fragments[i] = p[i]) /\ (forall m. k <= m < k + length c -> fragments[m] = c[m - k]) /\ (forall m. k + length c <= m < length fragments -> fragments[m] = p[m - length c]) }
@ghost loop 4 end
assert { length (cfgData_words trg_data[i]) = length (cfgData_words (trg_data at I4)[i]) + 1 };
@ghost loop 7 after
assert { spliced fragments (hget h_ruleEdge_fragment_edges_ parent) (hget h_ruleEdge_fragment_edges_ child) h_hyperEdge_head_ h_hyperNode_src_span_ (pos at L7) };
@prelude2
(* target positions in a node's range that no child (of its first rule) reaches: the ones AttachNullsTop adds *)
predicate inr (n: int) (nid: heap int) (ts: heap (fset int)) (v: int) = p1 (tcov n nid ts) <= v < p2 (tcov n nid ts)
constant tlen : int
predicate gap (ed et: heap (seq int)) (nid: heap int) (ts: heap (fset int)) (n v: int) = inr n nid ts v /\ v < tlen /\ not (exists j. 0 <= j < length (hget et (hget ed n)[0]) /\ inr (hget et (hget ed n)[0])[j] nid ts v)
predicate nested (ed et: heap (seq int)) (nid: heap int) (ts: heap (fset int)) = (forall n. dom n -> p1 (tcov n nid ts) = -1 -> p2 (tcov n nid ts) = -1) /\ forall n. dom n -> p1 (tcov n nid ts) <> -1 -> length (hget ed n) > 0 /\ 0 <= p1 (tcov n nid ts) /\ p1 (tcov n nid ts) <= tlen /\ (hget nid n <> 0 -> p2 (tcov n nid ts) <= tlen) /\ forall j. 0 <= j < length (hget et (hget ed n)[0]) -> let t = (hget et (hget ed n)[0])[j] in hget nid t <> 0 /\ forall v. inr t nid ts v -> inr n nid ts v
(* a node is as it was or has its gaps added *)
predicate attd (ed et: heap (seq int)) (nid: heap int) (ts0 ts: heap (fset int)) (n: int) = forall v. fs_mem (hget ts n) v <-> (fs_mem (hget ts0 n) v \/ gap ed et nid ts0 n v)
lemma tcov_same : forall n nid ts0 ts. (hget nid n <> 0 -> length (fs_keys (hget ts0 n)) > 0 -> length (fs_keys (hget ts n)) > 0 /\ (fs_keys (hget ts n))[0] = (fs_keys (hget ts0 n))[0] /\ (fs_keys (hget ts n))[length (fs_keys (hget ts n)) - 1] = (fs_keys (hget ts0 n))[length (fs_keys (hget ts0 n)) - 1]) -> (hget nid n <> 0 -> length (fs_keys (hget ts0 n)) = 0 -> length (fs_keys (hget ts n)) = 0) -> tcov n nid ts = tcov n nid ts0
lemma key_first : forall s t: fset int. length (fs_keys s) > 0 -> (forall v. fs_mem s v -> fs_mem t v) -> (forall v. fs_mem t v -> (fs_keys s)[0] <= v <= (fs_keys s)[length (fs_keys s) - 1]) -> length (fs_keys t) > 0 /\ (fs_keys t)[0] = (fs_keys s)[0] by let a = (fs_keys s)[0] in fs_mem s a so fs_mem t a so let i = fs_idx t a in 0 <= i < length (fs_keys t) so (fs_keys t)[i] = a so fs_mem t (fs_keys t)[0] so (fs_keys t)[0] >= a
lemma key_last : forall s t: fset int. length (fs_keys s) > 0 -> (forall v. fs_mem s v -> fs_mem t v) -> (forall v. fs_mem t v -> (fs_keys s)[0] <= v <= (fs_keys s)[length (fs_keys s) - 1]) -> length (fs_keys t) > 0 /\ (fs_keys t)[length (fs_keys t) - 1] = (fs_keys s)[length (fs_keys s) - 1] by let a = (fs_keys s)[length (fs_keys s) - 1] in fs_mem s a so fs_mem t a so let i = fs_idx t a in 0 <= i < length (fs_keys t) so (fs_keys t)[i] = a so fs_mem t (fs_keys t)[length (fs_keys t) - 1] so (fs_keys t)[length (fs_keys t) - 1] <= a
@fn travatar::ForestExtractor::AttachNullsTop sig=[void(vector] as attach_top
requires { dom node /\ rank node >= 0 /\ graph h_hyperNode_edges_ h_hyperEdge_tails_ /\ length nulls = tlen /\ tlen <= 2147483647 /\ nested h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ h_hyperNode_trg_span_ }
ensures { length nulls = tlen }
ensures { forall n. dom n -> tcov n h_hyperNode_id_ h_hyperNode_trg_span_ = tcov n h_hyperNode_id_ (old h_hyperNode_trg_span_) }
ensures { p1 (tcov node h_hyperNode_id_ (old h_hyperNode_trg_span_)) <> -1 -> attd h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ node }
ensures { forall n. dom n -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n \/ (rank n <= rank node /\ attd h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ n) }
ensures { forall n. dom n -> rank n >= rank node -> n <> node -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n }
raises { CxxThrow -> false }
variant { rank node }
@loop 1
invariant { length nulls = tlen }
invariant { forall n. dom n -> tcov n h_hyperNode_id_ h_hyperNode_trg_span_ = tcov n h_hyperNode_id_ (old h_hyperNode_trg_span_) }
invariant { forall n. dom n -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n \/ (rank n < rank node /\ attd h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ n) }
invariant { forall v. p1 trg_covered <= v < p2 trg_covered -> (child_covered[v - p1 trg_covered] <-> exists j. 0 <= j < $i /\ inr (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ node)[0])[j] h_hyperNode_id_ (old h_hyperNode_trg_span_) v) }
@loop 2
invariant { p1 tail_cov <= i }
invariant { forall v. p1 trg_covered <= v < p2 trg_covered -> (child_covered[v - p1 trg_covered] <-> ((child_covered at L2)[v - p1 trg_covered] \/ (p1 tail_cov <= v < i /\ inr tail h_hyperNode_id_ (old h_hyperNode_trg_span_) v))) }
@loop 3
invariant { 0 <= i <= length child_covered /\ length nulls = tlen }
invariant { forall n. n <> node -> hget h_hyperNode_trg_span_ n = hget (h_hyperNode_trg_span_ at L3) n }
invariant { forall v. fs_mem (hget h_hyperNode_trg_span_ node) v <-> (fs_mem (hget (h_hyperNode_trg_span_ at L3) node) v \/ (p1 trg_covered <= v < p1 trg_covered + i /\ not child_covered[v - p1 trg_covered])) }
@ghost loop 1 end
assert { forall n. dom n -> tcov n h_hyperNode_id_ (h_hyperNode_trg_span_ at I1) = tcov n h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) };
assert { forall n v. dom n -> inr n h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v -> length (hget h_hyperNode_edges_ n) > 0 };
assert { forall n v. dom n -> gap h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (h_hyperNode_trg_span_ at I1) n v -> gap h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) n v };
assert { forall n v. dom n -> gap h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) n v -> gap h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (h_hyperNode_trg_span_ at I1) n v };
assert { forall v. p1 trg_covered <= v < p2 trg_covered -> (child_covered[v - p1 trg_covered] <-> ((child_covered at I1)[v - p1 trg_covered] \/ inr tail h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v)) };
assert { forall v. (exists j. 0 <= j < $i+1 /\ inr (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ node)[0])[j] h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v) <-> ((exists j. 0 <= j < $i /\ inr (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ node)[0])[j] h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v) \/ inr tail h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v) };
@ghost loop 2 after
assert { dom tail /\ 0 <= rank tail };
assert { forall n v. dom n -> inr n h_hyperNode_id_ h_hyperNode_trg_span_ v <-> inr n h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) v };
assert { forall n j. dom n -> p1 (tcov n h_hyperNode_id_ h_hyperNode_trg_span_) <> -1 -> 0 <= j < length (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ n)[0]) -> dom (hget h_hyperEdge_tails_ (hget h_hyperNode_edges_ n)[0])[j] };
assert { nested h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ h_hyperNode_trg_span_ };
@ghost loop 2 start
assert { tail_cov = tcov tail h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) };
assert { dom tail /\ p1 tail_cov <> -1 /\ hget h_hyperNode_id_ tail <> 0 };
assert { p2 tail_cov <= tlen };
assert { inr node h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) i };
@ghost loop 2 end
assert { inr tail h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) i /\ p1 trg_covered <= i < p2 trg_covered };
@ghost loop 3 after
assert { p1 trg_covered + length child_covered = p2 trg_covered };
assert { p2 trg_covered = (if p2 (tcov node h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry)) <= tlen then p2 (tcov node h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry)) else tlen) };
assert { forall v. gap h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperNode_id_ (h_hyperNode_trg_span_ at Entry) node v <-> (p1 trg_covered <= v < p2 trg_covered /\ not child_covered[v - p1 trg_covered]) };
assert { hget (h_hyperNode_trg_span_ at L3) node = hget (h_hyperNode_trg_span_ at Entry) node };
@prelude2
(* [i..j] extends the closed span by at most att unaligned words on either side, all of them adjacent *)
predicate attachable (nulls: seq bool) (s: fset int) (att i j: int) = let k = fs_keys s in let lo = k[0] in let hi = k[length k - 1] in 0 <= i <= lo /\ lo - att <= i /\ hi <= j < length nulls /\ j <= hi + att /\ (forall v. i <= v < lo -> nulls[v]) /\ (forall v. hi < v <= j -> nulls[v])
predicate attset (nulls: seq bool) (s t: fset int) (i j: int) = let k = fs_keys s in let lo = k[0] in let hi = k[length k - 1] in forall v. fs_mem t v <-> ((i <= v <= lo \/ hi <= v <= j) /\ nulls[v])
predicate attached (nulls: seq bool) (s: fset int) (ts: heap (fset int)) (r: pair (fset int) int) (i j: int) = attset nulls s (p1 r) i j /\ forall v. fs_mem (hget ts (p2 r)) v <-> (fs_mem s v \/ fs_mem (p1 r) v)
predicate okr (nulls: seq bool) (s: fset int) (att: int) (ts: heap (fset int)) (r: pair (fset int) int)
axiom okr_def : forall nulls s att ts r. okr nulls s att ts r <-> exists i j. attachable nulls s att i j /\ attached nulls s ts r i j
lemma okr_in : forall nulls s att ts r i j. attachable nulls s att i j -> attached nulls s ts r i j -> okr nulls s att ts r
predicate hasr (nulls: seq bool) (s: fset int) (ts: heap (fset int)) (ret: seq (pair (fset int) int)) (i j: int)
axiom hasr_def : forall nulls s ts ret i j. hasr nulls s ts ret i j <-> exists k. 0 <= k < length ret /\ attached nulls s ts ret[k] i j
lemma keep_ok : forall nulls s att ts ts' r. hget ts' (p2 r) = hget ts (p2 r) -> okr nulls s att ts r -> okr nulls s att ts' r
lemma keep_has : forall nulls s ts ts' ret x i j. (forall k. 0 <= k < length ret -> hget ts' (p2 ret[k]) = hget ts (p2 ret[k])) -> hasr nulls s ts ret i j -> hasr nulls s ts' (snoc ret x) i j by exists k. (0 <= k < length ret /\ attached nulls s ts ret[k] i j) so (snoc ret x)[k] = ret[k] so attached nulls s ts' (snoc ret x)[k] i j so 0 <= k < length (snoc ret x)
lemma add_has : forall nulls s ts ret x i j. attached nulls s ts x i j -> hasr nulls s ts (snoc ret x) i j by (snoc ret x)[length ret] = x
@fn travatar::ForestExtractor::ExpandNode as expand_node
requires { 0 < old_node < nextptr /\ my_attach >= 0 }
requires { forall v. fs_mem (hget h_hyperNode_trg_span_ old_node) v -> 0 <= v < length nulls }
ensures { length (fs_keys (hget h_hyperNode_trg_span_ old_node)) = 0 -> length result = 1 /\ p1 result[0] = (fs_empty: fset int) }
ensures { length (fs_keys (hget h_hyperNode_trg_span_ old_node)) > 0 -> forall k. 0 <= k < length result -> okr nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach h_hyperNode_trg_span_ result[k] }
ensures { length (fs_keys (hget h_hyperNode_trg_span_ old_node)) > 0 -> forall i j. attachable nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach i j -> hasr nulls (hget (old h_hyperNode_trg_span_) old_node) h_hyperNode_trg_span_ result i j }
ensures { forall n. 0 < n < old nextptr -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n }
raises { CxxThrow -> false }
@loop 1
invariant { let s = hget (old h_hyperNode_trg_span_) old_node in let lo = (fs_keys s)[0] in -1 <= i <= lo /\ lo - my_attach - 1 <= i /\ (forall v. i < v < lo -> nulls[v]) /\ (forall v. fs_mem i_set v <-> (i < v <= lo /\ nulls[v])) }
invariant { forall n. 0 < n < old nextptr -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n }
invariant { forall k. 0 <= k < length ret -> old nextptr <= p2 ret[k] < nextptr }
invariant { forall k. 0 <= k < length ret -> okr nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach h_hyperNode_trg_span_ ret[k] }
invariant { forall i1 j. i < i1 -> attachable nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach i1 j -> hasr nulls (hget (old h_hyperNode_trg_span_) old_node) h_hyperNode_trg_span_ ret i1 j }
variant { i + 1 }
@loop 2
invariant { let s = hget (old h_hyperNode_trg_span_) old_node in let lo = (fs_keys s)[0] in let hi = (fs_keys s)[length (fs_keys s) - 1] in lo <= hi <= j <= length nulls /\ j <= hi + 1 + my_attach /\ (forall v. hi < v < j -> nulls[v]) /\ (forall v. fs_mem j_set v <-> ((i <= v <= lo \/ hi <= v < j) /\ nulls[v])) }
invariant { forall n. 0 < n < old nextptr -> hget h_hyperNode_trg_span_ n = hget (old h_hyperNode_trg_span_) n }
invariant { forall k. 0 <= k < length ret -> old nextptr <= p2 ret[k] < nextptr }
invariant { forall k. 0 <= k < length ret -> okr nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach h_hyperNode_trg_span_ ret[k] }
invariant { forall i1 j. i < i1 -> attachable nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach i1 j -> hasr nulls (hget (old h_hyperNode_trg_span_) old_node) h_hyperNode_trg_span_ ret i1 j }
invariant { forall j1. j1 < j -> attachable nulls (hget (old h_hyperNode_trg_span_) old_node) my_attach i j1 -> hasr nulls (hget (old h_hyperNode_trg_span_) old_node) h_hyperNode_trg_span_ ret i j1 }
variant { length nulls - j }
@loop 3
invariant { forall n. n <> j_node -> hget h_hyperNode_trg_span_ n = hget (h_hyperNode_trg_span_ at L3) n }
invariant { forall v. fs_mem (hget h_hyperNode_trg_span_ j_node) v <-> (fs_mem (hget (h_hyperNode_trg_span_ at L3) j_node) v \/ exists m. 0 <= m < $i /\ (fs_keys j_set)[m] = v) }
@ghost loop 3 after
assert { hget (h_hyperNode_trg_span_ at L3) j_node = hget (h_hyperNode_trg_span_ at Entry) old_node };
assert { forall v. fs_mem (hget h_hyperNode_trg_span_ j_node) v <-> (fs_mem (hget (h_hyperNode_trg_span_ at Entry) old_node) v \/ fs_mem j_set v) };
assert { attachable nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) my_attach i j };
assert { attached nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) h_hyperNode_trg_span_ (mkp j_set j_node) i j };
@ghost loop 2 end
assert { length ret = length (ret at I2) + 1 };
assert { forall k. 0 <= k < length ret - 1 -> ret[k] = (ret at I2)[k] };
assert { forall k. 0 <= k < length ret - 1 -> hget h_hyperNode_trg_span_ (p2 ret[k]) = hget (h_hyperNode_trg_span_ at I2) (p2 ret[k]) };
assert { forall k. 0 <= k < length ret - 1 -> okr nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) my_attach (h_hyperNode_trg_span_ at I2) ret[k] };
assert { forall k. 0 <= k < length ret - 1 -> okr nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) my_attach h_hyperNode_trg_span_ ret[k] };
assert { okr nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) my_attach h_hyperNode_trg_span_ ret[length ret - 1] };
@ghost loop 2 after
assert { forall j1. attachable nulls (hget (h_hyperNode_trg_span_ at Entry) old_node) my_attach i j1 -> j1 < j };
