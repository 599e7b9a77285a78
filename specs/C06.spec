@files src/lib/hyper-graph.cc
@include sparse.inc
@heapclass travatar::HyperNode travatar::HyperEdge travatar::RuleEdge
@prelude
@prelude2
(* p is the element of xs its id says *)
predicate ing (ids: heap int) (xs: seq int) (p: int) = 0 <= hget ids p < length xs /\ xs[hget ids p] = p
predicate ids_ok (ids: heap int) (xs: seq int) = forall i. 0 <= i < length xs -> hget ids xs[i] = i
predicate alloc (xs: seq int) (n: int) = forall i. 0 <= i < length xs -> 0 < xs[i] < n
predicate wfn (eid eh: heap int) (ned: heap (seq int)) (ns es: seq int) = forall i j. 0 <= i < length ns -> 0 <= j < length (hget ned ns[i]) -> ing eid es (hget ned ns[i])[j] /\ hget eh (hget ned ns[i])[j] = ns[i]
predicate wfh (nid eh: heap int) (ns es: seq int) = forall i. 0 <= i < length es -> ing nid ns (hget eh es[i])
predicate wft (nid: heap int) (et: heap (seq int)) (ns es: seq int) = forall i j. 0 <= i < length es -> 0 <= j < length (hget et es[i]) -> ing nid ns (hget et es[i])[j]
predicate wf (nid eid eh: heap int) (ned et: heap (seq int)) (g: hyperGraph) =
  let ns = hyperGraph_nodes_ g in let es = hyperGraph_edges_ g in ids_ok nid ns /\ ids_ok eid es /\ wfn eid eh ned ns es /\ wfh nid eh ns es /\ wft nid et ns es
predicate allocg (g: hyperGraph) (n: int) = alloc (hyperGraph_nodes_ g) n /\ alloc (hyperGraph_edges_ g) n
predicate same (a b: heap 'a) (n: int) = forall p. p < n -> hget a p = hget b p
predicate has (s: seq int) (e: int) = exists k. 0 <= k < length s /\ s[k] = e
let lemma has_snoc (s: seq int) (e: int) ensures { forall x. has (snoc s e) x <-> has s x \/ x = e } = assert { (snoc s e)[length s] = e }; assert { forall x k. 0 <= k < length s -> s[k] = x -> (snoc s e)[k] = x }
predicate uses (et: heap (seq int)) (es: seq int) (n e: int) = has es e /\ has (hget et e) n
@fn travatar::HyperEdge::AddTail as add_tail
requires { tail <> 0 }
ensures { hget h_hyperEdge_tails_ this = snoc (hget (old h_hyperEdge_tails_) this) tail }
ensures { forall p. p <> this -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) p }
ensures { let h = hget h_hyperEdge_head_ this in h = 0 \/ hget h_hyperNode_id_ h = -1 \/ hget h_hyperNode_id_ h <> hget h_hyperNode_id_ tail }
@fn travatar::HyperEdge::RefreshPointers as refresh_edge
requires { let ns = hyperGraph_nodes_ new_graph in hget h_hyperEdge_head_ this <> 0 /\ 0 <= hget h_hyperNode_id_ (hget h_hyperEdge_head_ this) < length ns }
requires { let ns = hyperGraph_nodes_ new_graph in forall j. 0 <= j < length (hget h_hyperEdge_tails_ this) -> (hget h_hyperEdge_tails_ this)[j] <> 0 /\ 0 <= hget h_hyperNode_id_ (hget h_hyperEdge_tails_ this)[j] < length ns }
ensures { hget h_hyperEdge_head_ this = (hyperGraph_nodes_ new_graph)[hget h_hyperNode_id_ (hget (old h_hyperEdge_head_) this)] }
ensures { length (hget h_hyperEdge_tails_ this) = length (hget (old h_hyperEdge_tails_) this) }
ensures { forall j. 0 <= j < length (hget h_hyperEdge_tails_ this) -> (hget h_hyperEdge_tails_ this)[j] = (hyperGraph_nodes_ new_graph)[hget h_hyperNode_id_ (hget (old h_hyperEdge_tails_) this)[j]] }
ensures { forall p. p <> this -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) p }
ensures { forall p. p <> this -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) p }
@loop 1
invariant { length (hget h_hyperEdge_tails_ this) = length (hget (old h_hyperEdge_tails_) this) }
invariant { forall j. i <= j < length (hget h_hyperEdge_tails_ this) -> (hget h_hyperEdge_tails_ this)[j] = (hget (old h_hyperEdge_tails_) this)[j] }
invariant { forall j. 0 <= j < i -> (hget h_hyperEdge_tails_ this)[j] = (hyperGraph_nodes_ new_graph)[hget h_hyperNode_id_ (hget (old h_hyperEdge_tails_) this)[j]] }
invariant { forall p. p <> this -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) p }
@fn travatar::HyperNode::RefreshPointers as refresh_node
requires { let es = hyperGraph_edges_ new_graph in forall j. 0 <= j < length (hget h_hyperNode_edges_ this) -> (hget h_hyperNode_edges_ this)[j] <> 0 /\ 0 <= hget h_hyperEdge_id_ (hget h_hyperNode_edges_ this)[j] < length es }
ensures { length (hget h_hyperNode_edges_ this) = length (hget (old h_hyperNode_edges_) this) }
ensures { forall j. 0 <= j < length (hget h_hyperNode_edges_ this) -> (hget h_hyperNode_edges_ this)[j] = (hyperGraph_edges_ new_graph)[hget h_hyperEdge_id_ (hget (old h_hyperNode_edges_) this)[j]] }
ensures { forall p. p <> this -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) p }
@loop 1
invariant { length (hget h_hyperNode_edges_ this) = length (hget (old h_hyperNode_edges_) this) }
invariant { forall j. i <= j < length (hget h_hyperNode_edges_ this) -> (hget h_hyperNode_edges_ this)[j] = (hget (old h_hyperNode_edges_) this)[j] }
invariant { forall j. 0 <= j < i -> (hget h_hyperNode_edges_ this)[j] = (hyperGraph_edges_ new_graph)[hget h_hyperEdge_id_ (hget (old h_hyperNode_edges_) this)[j]] }
invariant { forall p. p <> this -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) p }
@fn travatar::HyperGraph::AddNode as add_node
requires { node <> 0 /\ hget h_hyperNode_id_ node >= -1 }
ensures { let k = hget h_hyperNode_id_ node in let n = length (hyperGraph_nodes_ (old this)) in 0 <= k < length (hyperGraph_nodes_ this) /\ (hyperGraph_nodes_ this)[k] = node /\ (hget (old h_hyperNode_id_) node = -1 -> k = n) /\ (hget (old h_hyperNode_id_) node >= 0 -> k = hget (old h_hyperNode_id_) node /\ (k < n -> (hyperGraph_nodes_ (old this))[k] = 0)) }
ensures { let k = hget h_hyperNode_id_ node in let n = length (hyperGraph_nodes_ (old this)) in length (hyperGraph_nodes_ this) = (if k < n then n else k + 1) }
ensures { let k = hget h_hyperNode_id_ node in let n = length (hyperGraph_nodes_ (old this)) in forall i. 0 <= i < length (hyperGraph_nodes_ this) -> i <> k -> (hyperGraph_nodes_ this)[i] = (if i < n then (hyperGraph_nodes_ (old this))[i] else 0) }
ensures { forall p. p <> node -> hget h_hyperNode_id_ p = hget (old h_hyperNode_id_) p }
ensures { hyperGraph_edges_ this = hyperGraph_edges_ (old this) /\ hyperGraph_words_ this = hyperGraph_words_ (old this) }
ensures { ids_ok (old h_hyperNode_id_) (hyperGraph_nodes_ (old this)) -> (forall i. 0 <= i < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ (old this))[i] <> node) -> hget h_hyperNode_id_ node = length (hyperGraph_nodes_ (old this)) -> ids_ok h_hyperNode_id_ (hyperGraph_nodes_ this) }
@fn travatar::HyperGraph::AddEdge as add_edge
requires { edge <> 0 }
ensures { hyperGraph_edges_ this = snoc (hyperGraph_edges_ (old this)) edge /\ hget h_hyperEdge_id_ edge = length (hyperGraph_edges_ (old this)) }
ensures { forall p. p <> edge -> hget h_hyperEdge_id_ p = hget (old h_hyperEdge_id_) p }
ensures { hyperGraph_nodes_ this = hyperGraph_nodes_ (old this) /\ hyperGraph_words_ this = hyperGraph_words_ (old this) }
ensures { ids_ok (old h_hyperEdge_id_) (hyperGraph_edges_ (old this)) -> (forall i. 0 <= i < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ (old this))[i] <> edge) -> ids_ok h_hyperEdge_id_ (hyperGraph_edges_ this) }
@fn travatar::HyperGraph::ResetViterbiScores as reset_vit
requires { forall i. 0 <= i < length (hyperGraph_nodes_ this) -> (hyperGraph_nodes_ this)[i] <> 0 }
ensures { forall i. 0 <= i < length (hyperGraph_nodes_ this) -> hget h_hyperNode_viterbi_score_ (hyperGraph_nodes_ this)[i] = -. real_max }
@loop 1
invariant { forall k. 0 <= k < $i -> hget h_hyperNode_viterbi_score_ (hyperGraph_nodes_ this)[k] = -. real_max }
@fn travatar::HyperGraph::GetReversedEdges as rev_edges
requires { wf h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ this }
requires { forall i. 0 <= i < length (hyperGraph_nodes_ this) -> (hyperGraph_nodes_ this)[i] <> 0 }
requires { forall i. 0 <= i < length (hyperGraph_edges_ this) -> (hyperGraph_edges_ this)[i] <> 0 }
ensures { length result = length (hyperGraph_nodes_ this) }
ensures { forall n k. 0 <= n < length result -> 0 <= k < length result[n] -> uses h_hyperEdge_tails_ (hyperGraph_edges_ this) (hyperGraph_nodes_ this)[n] result[n][k] }
ensures { forall i j. 0 <= i < length (hyperGraph_edges_ this) -> 0 <= j < length (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[i]) -> has result[hget h_hyperNode_id_ (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[i])[j]] (hyperGraph_edges_ this)[i] }
@loop 1
invariant { length ret = length (hyperGraph_nodes_ this) }
invariant { forall n k. 0 <= n < length ret -> 0 <= k < length ret[n] -> uses h_hyperEdge_tails_ (hyperGraph_edges_ this) (hyperGraph_nodes_ this)[n] ret[n][k] }
invariant { forall i j. 0 <= i < $i -> 0 <= j < length (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[i]) -> has ret[hget h_hyperNode_id_ (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[i])[j]] (hyperGraph_edges_ this)[i] }
@loop 2
invariant { length ret = length (hyperGraph_nodes_ this) }
invariant { forall n k. 0 <= n < length ret -> 0 <= k < length ret[n] -> uses h_hyperEdge_tails_ (hyperGraph_edges_ this) (hyperGraph_nodes_ this)[n] ret[n][k] }
invariant { forall n e. 0 <= n < length ret -> has (ret at L2)[n] e -> has ret[n] e }
invariant { forall j. 0 <= j < $i -> has ret[hget h_hyperNode_id_ (hget h_hyperEdge_tails_ edge)[j]] edge }
@ghost loop 2 start
assert { uses h_hyperEdge_tails_ (hyperGraph_edges_ this) (hget h_hyperEdge_tails_ edge)[$i] edge };
@fn travatar::HyperGraph::Append as append_graph
requires { wf h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ this }
requires { wf h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ rhs }
requires { allocg this nextptr /\ allocg rhs nextptr }
ensures { result = length (hyperGraph_nodes_ (old this)) }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ this)[k] = (hyperGraph_nodes_ (old this))[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ this)[k] = (hyperGraph_edges_ (old this))[k] }
ensures { length (hyperGraph_nodes_ this) = length (hyperGraph_nodes_ (old this)) + length (hyperGraph_nodes_ rhs) /\ length (hyperGraph_edges_ this) = length (hyperGraph_edges_ (old this)) + length (hyperGraph_edges_ rhs) }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_sym_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_sym_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_trg_sym_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_trg_sym_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_src_span_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_src_span_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_has_trg_span_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_has_trg_span_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_trg_span_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_trg_span_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_frontier_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_frontier_) (hyperGraph_nodes_ rhs)[k] /\ hget h_hyperNode_viterbi_score_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k] = hget (old h_hyperNode_viterbi_score_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_score_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k] = hget (old h_hyperEdge_score_) (hyperGraph_edges_ rhs)[k] /\ hget h_hyperEdge_src_str_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k] = hget (old h_hyperEdge_src_str_) (hyperGraph_edges_ rhs)[k] /\ hget h_hyperEdge_trg_data_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k] = hget (old h_hyperEdge_trg_data_) (hyperGraph_edges_ rhs)[k] /\ hget h_hyperEdge_features_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k] = hget (old h_hyperEdge_features_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> length (hget h_hyperNode_edges_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k]) = length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k]) }
ensures { forall k j. 0 <= k < length (hyperGraph_nodes_ rhs) -> 0 <= j < length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k]) -> (hget h_hyperNode_edges_ (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + k])[j] = (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + hget (old h_hyperEdge_id_) (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k])[j]] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_head_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k] = (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[k])] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> length (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k]) = length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k]) }
ensures { forall k j. 0 <= k < length (hyperGraph_edges_ rhs) -> 0 <= j < length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k]) -> (hget h_hyperEdge_tails_ (hyperGraph_edges_ this)[length (hyperGraph_edges_ (old this)) + k])[j] = (hyperGraph_nodes_ this)[length (hyperGraph_nodes_ (old this)) + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k])[j]] }
ensures { same (old h_hyperNode_id_) h_hyperNode_id_ (old nextptr) }
ensures { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
ensures { same (old h_hyperNode_sym_) h_hyperNode_sym_ (old nextptr) }
ensures { same (old h_hyperNode_trg_sym_) h_hyperNode_trg_sym_ (old nextptr) }
ensures { same (old h_hyperNode_src_span_) h_hyperNode_src_span_ (old nextptr) }
ensures { same (old h_hyperNode_has_trg_span_) h_hyperNode_has_trg_span_ (old nextptr) }
ensures { same (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ (old nextptr) }
ensures { same (old h_hyperNode_frontier_) h_hyperNode_frontier_ (old nextptr) }
ensures { same (old h_hyperNode_viterbi_score_) h_hyperNode_viterbi_score_ (old nextptr) }
ensures { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
ensures { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
ensures { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
ensures { same (old h_hyperEdge_score_) h_hyperEdge_score_ (old nextptr) }
ensures { same (old h_hyperEdge_src_str_) h_hyperEdge_src_str_ (old nextptr) }
ensures { same (old h_hyperEdge_trg_data_) h_hyperEdge_trg_data_ (old nextptr) }
ensures { same (old h_hyperEdge_features_) h_hyperEdge_features_ (old nextptr) }
ensures { ids_ok h_hyperNode_id_ (hyperGraph_nodes_ this) }
ensures { ids_ok h_hyperEdge_id_ (hyperGraph_edges_ this) }
ensures { wfh h_hyperNode_id_ h_hyperEdge_head_ (hyperGraph_nodes_ this) (hyperGraph_edges_ this) }
ensures { wft h_hyperNode_id_ h_hyperEdge_tails_ (hyperGraph_nodes_ this) (hyperGraph_edges_ this) }
ensures { wfn h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ (hyperGraph_nodes_ this) (hyperGraph_edges_ this) }
@loop 1
invariant { nextptr = old nextptr + $i }
invariant { node_start = length (hyperGraph_nodes_ (old this)) /\ edge_start = length (hyperGraph_edges_ (old this)) }
invariant { length (hyperGraph_nodes_ this) = node_start + $i /\ length (hyperGraph_edges_ this) = edge_start + 0 }
invariant { forall k. 0 <= k < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ this)[k] = (hyperGraph_nodes_ (old this))[k] }
invariant { forall k. 0 <= k < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ this)[k] = (hyperGraph_edges_ (old this))[k] }
invariant { forall m. node_start <= m < node_start + $i -> (hyperGraph_nodes_ this)[m] = old nextptr + (m - node_start) }
invariant { forall m. edge_start <= m < edge_start + 0 -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + (m - edge_start) }
invariant { same (old h_hyperNode_id_) h_hyperNode_id_ (old nextptr) }
invariant { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
invariant { same (old h_hyperNode_sym_) h_hyperNode_sym_ (old nextptr) }
invariant { same (old h_hyperNode_trg_sym_) h_hyperNode_trg_sym_ (old nextptr) }
invariant { same (old h_hyperNode_src_span_) h_hyperNode_src_span_ (old nextptr) }
invariant { same (old h_hyperNode_has_trg_span_) h_hyperNode_has_trg_span_ (old nextptr) }
invariant { same (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ (old nextptr) }
invariant { same (old h_hyperNode_frontier_) h_hyperNode_frontier_ (old nextptr) }
invariant { same (old h_hyperNode_viterbi_score_) h_hyperNode_viterbi_score_ (old nextptr) }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_id_ p = hget (old h_hyperNode_id_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_sym_ p = hget (old h_hyperNode_sym_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_trg_sym_ p = hget (old h_hyperNode_trg_sym_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_src_span_ p = hget (old h_hyperNode_src_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_has_trg_span_ p = hget (old h_hyperNode_has_trg_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_trg_span_ p = hget (old h_hyperNode_trg_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_frontier_ p = hget (old h_hyperNode_frontier_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + $i -> hget h_hyperNode_viterbi_score_ p = hget (old h_hyperNode_viterbi_score_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
@loop 2
invariant { nextptr = (old nextptr + length (hyperGraph_nodes_ rhs)) + $i }
invariant { node_start = length (hyperGraph_nodes_ (old this)) /\ edge_start = length (hyperGraph_edges_ (old this)) }
invariant { length (hyperGraph_nodes_ this) = node_start + length (hyperGraph_nodes_ rhs) /\ length (hyperGraph_edges_ this) = edge_start + $i }
invariant { forall k. 0 <= k < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ this)[k] = (hyperGraph_nodes_ (old this))[k] }
invariant { forall k. 0 <= k < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ this)[k] = (hyperGraph_edges_ (old this))[k] }
invariant { forall m. node_start <= m < node_start + length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + (m - node_start) }
invariant { forall m. edge_start <= m < edge_start + $i -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + (m - edge_start) }
invariant { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
invariant { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
invariant { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
invariant { same (old h_hyperEdge_score_) h_hyperEdge_score_ (old nextptr) }
invariant { same (old h_hyperEdge_src_str_) h_hyperEdge_src_str_ (old nextptr) }
invariant { same (old h_hyperEdge_trg_data_) h_hyperEdge_trg_data_ (old nextptr) }
invariant { same (old h_hyperEdge_features_) h_hyperEdge_features_ (old nextptr) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_id_ p = hget (old h_hyperEdge_id_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_score_ p = hget (old h_hyperEdge_score_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_src_str_ p = hget (old h_hyperEdge_src_str_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_trg_data_ p = hget (old h_hyperEdge_trg_data_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_features_ p = hget (old h_hyperEdge_features_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
@loop 3
invariant { node_start <= i <= length (hyperGraph_nodes_ this) }
invariant { node_start = length (hyperGraph_nodes_ (old this)) /\ edge_start = length (hyperGraph_edges_ (old this)) }
invariant { length (hyperGraph_nodes_ this) = node_start + length (hyperGraph_nodes_ rhs) /\ length (hyperGraph_edges_ this) = edge_start + length (hyperGraph_edges_ rhs) }
invariant { forall k. 0 <= k < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ this)[k] = (hyperGraph_nodes_ (old this))[k] }
invariant { forall k. 0 <= k < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ this)[k] = (hyperGraph_edges_ (old this))[k] }
invariant { forall m. node_start <= m < node_start + length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + (m - node_start) }
invariant { forall m. edge_start <= m < edge_start + length (hyperGraph_edges_ rhs) -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + (m - edge_start) }
invariant { same (old h_hyperNode_id_) h_hyperNode_id_ (old nextptr) }
invariant { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
invariant { forall p. old nextptr + 0 <= p < old nextptr + i - node_start -> hget h_hyperNode_id_ p = node_start + (p - old nextptr) }
invariant { forall p. old nextptr + i - node_start <= p < old nextptr + length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_id_ p = hget (old h_hyperNode_id_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr + 0 <= p < old nextptr + length (hyperGraph_nodes_ rhs) -> length (hget h_hyperNode_edges_ p) = length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr]) }
invariant { forall p. old nextptr + i - node_start <= p < old nextptr + length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p j. old nextptr + 0 <= p < old nextptr + i - node_start -> 0 <= j < length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr]) -> (hget h_hyperNode_edges_ p)[j] = (old nextptr + length (hyperGraph_nodes_ rhs)) + hget (old h_hyperEdge_id_) (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr])[j] }
@ghost loop 3 start
assert { (hyperGraph_nodes_ this)[i] = ((nextptr at Entry) + (i - node_start)) by (hyperGraph_nodes_ this)[node_start + (i - node_start)] = ((nextptr at Entry) + (i - node_start)) };
@loop 4
invariant { 0 <= j <= length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[i - node_start]) }
invariant { length (hget h_hyperNode_edges_ (old nextptr + (i - node_start))) = length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[i - node_start]) }
invariant { forall m. j <= m < length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[i - node_start]) -> (hget h_hyperNode_edges_ (old nextptr + (i - node_start)))[m] = (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[i - node_start])[m] }
invariant { forall m. 0 <= m < j -> (hget h_hyperNode_edges_ (old nextptr + (i - node_start)))[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + hget (old h_hyperEdge_id_) (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[i - node_start])[m] }
invariant { forall p. p <> (old nextptr + (i - node_start)) -> hget h_hyperNode_edges_ p = hget (h_hyperNode_edges_ at L4) p }
@ghost loop 4 start
assert { ing h_hyperEdge_id_ (hyperGraph_edges_ rhs) (hget (h_hyperNode_edges_ at Entry) (hyperGraph_nodes_ rhs)[i - node_start])[j] };
@loop 5
invariant { edge_start <= i <= length (hyperGraph_edges_ this) }
invariant { node_start = length (hyperGraph_nodes_ (old this)) /\ edge_start = length (hyperGraph_edges_ (old this)) }
invariant { length (hyperGraph_nodes_ this) = node_start + length (hyperGraph_nodes_ rhs) /\ length (hyperGraph_edges_ this) = edge_start + length (hyperGraph_edges_ rhs) }
invariant { forall k. 0 <= k < length (hyperGraph_nodes_ (old this)) -> (hyperGraph_nodes_ this)[k] = (hyperGraph_nodes_ (old this))[k] }
invariant { forall k. 0 <= k < length (hyperGraph_edges_ (old this)) -> (hyperGraph_edges_ this)[k] = (hyperGraph_edges_ (old this))[k] }
invariant { forall m. node_start <= m < node_start + length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + (m - node_start) }
invariant { forall m. edge_start <= m < edge_start + length (hyperGraph_edges_ rhs) -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + (m - edge_start) }
invariant { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
invariant { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
invariant { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + i - edge_start -> hget h_hyperEdge_id_ p = edge_start + (p - (old nextptr + length (hyperGraph_nodes_ rhs))) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + i - edge_start -> hget h_hyperEdge_head_ p = old nextptr + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + i - edge_start <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + length (hyperGraph_edges_ rhs) -> length (hget h_hyperEdge_tails_ p) = length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + i - edge_start <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p j. (old nextptr + length (hyperGraph_nodes_ rhs)) + 0 <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + i - edge_start -> 0 <= j < length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) -> (hget h_hyperEdge_tails_ p)[j] = old nextptr + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))])[j] }
@ghost loop 5 start
assert { (hyperGraph_edges_ this)[i] = (((nextptr at Entry) + length (hyperGraph_nodes_ rhs)) + (i - edge_start)) by (hyperGraph_edges_ this)[edge_start + (i - edge_start)] = (((nextptr at Entry) + length (hyperGraph_nodes_ rhs)) + (i - edge_start)) };
assert { ing (h_hyperNode_id_ at Entry) (hyperGraph_nodes_ rhs) (hget (h_hyperEdge_head_ at Entry) (hyperGraph_edges_ rhs)[i - edge_start]) };
@loop 6
invariant { 0 <= j <= length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[i - edge_start]) }
invariant { length (hget h_hyperEdge_tails_ ((old nextptr + length (hyperGraph_nodes_ rhs)) + (i - edge_start))) = length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[i - edge_start]) }
invariant { forall m. j <= m < length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[i - edge_start]) -> (hget h_hyperEdge_tails_ ((old nextptr + length (hyperGraph_nodes_ rhs)) + (i - edge_start)))[m] = (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[i - edge_start])[m] }
invariant { forall m. 0 <= m < j -> (hget h_hyperEdge_tails_ ((old nextptr + length (hyperGraph_nodes_ rhs)) + (i - edge_start)))[m] = old nextptr + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[i - edge_start])[m] }
invariant { forall p. p <> ((old nextptr + length (hyperGraph_nodes_ rhs)) + (i - edge_start)) -> hget h_hyperEdge_tails_ p = hget (h_hyperEdge_tails_ at L6) p }
@ghost loop 6 start
assert { ing (h_hyperNode_id_ at Entry) (hyperGraph_nodes_ rhs) (hget (h_hyperEdge_tails_ at Entry) (hyperGraph_edges_ rhs)[i - edge_start])[j] };
@fn travatar::HyperGraph::HyperGraph sig=[constHyperGraph] as copy_graph
requires { wf h_hyperNode_id_ h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ h_hyperEdge_tails_ rhs }
requires { allocg rhs nextptr }
requires { hyperGraph_edge_type_ rhs = 72 \/ hyperGraph_edge_type_ rhs = 82 }
ensures { hyperGraph_words_ result = hyperGraph_words_ rhs /\ hyperGraph_edge_type_ result = hyperGraph_edge_type_ rhs }
ensures { length (hyperGraph_nodes_ result) = length (hyperGraph_nodes_ rhs) /\ length (hyperGraph_edges_ result) = length (hyperGraph_edges_ rhs) }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ result)[k] = old nextptr + k }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> (hyperGraph_edges_ result)[k] = (old nextptr + length (hyperGraph_nodes_ rhs)) + k }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_id_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_id_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_sym_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_sym_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_trg_sym_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_trg_sym_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_src_span_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_src_span_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_has_trg_span_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_has_trg_span_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_trg_span_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_trg_span_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_frontier_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_frontier_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_viterbi_score_ (hyperGraph_nodes_ result)[k] = hget (old h_hyperNode_viterbi_score_) (hyperGraph_nodes_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_id_ (hyperGraph_edges_ result)[k] = hget (old h_hyperEdge_id_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_score_ (hyperGraph_edges_ result)[k] = hget (old h_hyperEdge_score_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_src_str_ (hyperGraph_edges_ result)[k] = hget (old h_hyperEdge_src_str_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_trg_data_ (hyperGraph_edges_ result)[k] = hget (old h_hyperEdge_trg_data_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_features_ (hyperGraph_edges_ result)[k] = hget (old h_hyperEdge_features_) (hyperGraph_edges_ rhs)[k] }
ensures { hyperGraph_edge_type_ rhs = 82 -> forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_ruleEdge_fragment_edges_ (hyperGraph_edges_ result)[k] = hget (old h_ruleEdge_fragment_edges_) (hyperGraph_edges_ rhs)[k] }
ensures { forall k. 0 <= k < length (hyperGraph_nodes_ rhs) -> length (hget h_hyperNode_edges_ (hyperGraph_nodes_ result)[k]) = length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k]) }
ensures { forall k j. 0 <= k < length (hyperGraph_nodes_ rhs) -> 0 <= j < length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k]) -> (hget h_hyperNode_edges_ (hyperGraph_nodes_ result)[k])[j] = (hyperGraph_edges_ result)[hget (old h_hyperEdge_id_) (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[k])[j]] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_head_ (hyperGraph_edges_ result)[k] = (hyperGraph_nodes_ result)[hget (old h_hyperNode_id_) (hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[k])] }
ensures { forall k. 0 <= k < length (hyperGraph_edges_ rhs) -> length (hget h_hyperEdge_tails_ (hyperGraph_edges_ result)[k]) = length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k]) }
ensures { forall k j. 0 <= k < length (hyperGraph_edges_ rhs) -> 0 <= j < length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k]) -> (hget h_hyperEdge_tails_ (hyperGraph_edges_ result)[k])[j] = (hyperGraph_nodes_ result)[hget (old h_hyperNode_id_) (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[k])[j]] }
ensures { same (old h_hyperNode_id_) h_hyperNode_id_ (old nextptr) }
ensures { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
ensures { same (old h_hyperNode_sym_) h_hyperNode_sym_ (old nextptr) }
ensures { same (old h_hyperNode_trg_sym_) h_hyperNode_trg_sym_ (old nextptr) }
ensures { same (old h_hyperNode_src_span_) h_hyperNode_src_span_ (old nextptr) }
ensures { same (old h_hyperNode_has_trg_span_) h_hyperNode_has_trg_span_ (old nextptr) }
ensures { same (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ (old nextptr) }
ensures { same (old h_hyperNode_frontier_) h_hyperNode_frontier_ (old nextptr) }
ensures { same (old h_hyperNode_viterbi_score_) h_hyperNode_viterbi_score_ (old nextptr) }
ensures { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
ensures { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
ensures { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
ensures { same (old h_hyperEdge_score_) h_hyperEdge_score_ (old nextptr) }
ensures { same (old h_hyperEdge_src_str_) h_hyperEdge_src_str_ (old nextptr) }
ensures { same (old h_hyperEdge_trg_data_) h_hyperEdge_trg_data_ (old nextptr) }
ensures { same (old h_hyperEdge_features_) h_hyperEdge_features_ (old nextptr) }
ensures { ids_ok h_hyperNode_id_ (hyperGraph_nodes_ result) }
ensures { ids_ok h_hyperEdge_id_ (hyperGraph_edges_ result) }
ensures { wfh h_hyperNode_id_ h_hyperEdge_head_ (hyperGraph_nodes_ result) (hyperGraph_edges_ result) }
ensures { wft h_hyperNode_id_ h_hyperEdge_tails_ (hyperGraph_nodes_ result) (hyperGraph_edges_ result) }
ensures { wfn h_hyperEdge_id_ h_hyperEdge_head_ h_hyperNode_edges_ (hyperGraph_nodes_ result) (hyperGraph_edges_ result) }
@loop 1
invariant { nextptr = old nextptr + $i }
invariant { length (hyperGraph_nodes_ this) = $i }
invariant { forall m. 0 <= m < $i -> (hyperGraph_nodes_ this)[m] = old nextptr + m }
invariant { length (hyperGraph_edges_ this) = 0 }
invariant { same (old h_hyperNode_id_) h_hyperNode_id_ (old nextptr) }
invariant { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
invariant { same (old h_hyperNode_sym_) h_hyperNode_sym_ (old nextptr) }
invariant { same (old h_hyperNode_trg_sym_) h_hyperNode_trg_sym_ (old nextptr) }
invariant { same (old h_hyperNode_src_span_) h_hyperNode_src_span_ (old nextptr) }
invariant { same (old h_hyperNode_has_trg_span_) h_hyperNode_has_trg_span_ (old nextptr) }
invariant { same (old h_hyperNode_trg_span_) h_hyperNode_trg_span_ (old nextptr) }
invariant { same (old h_hyperNode_frontier_) h_hyperNode_frontier_ (old nextptr) }
invariant { same (old h_hyperNode_viterbi_score_) h_hyperNode_viterbi_score_ (old nextptr) }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_id_ p = hget (old h_hyperNode_id_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_sym_ p = hget (old h_hyperNode_sym_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_trg_sym_ p = hget (old h_hyperNode_trg_sym_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_src_span_ p = hget (old h_hyperNode_src_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_has_trg_span_ p = hget (old h_hyperNode_has_trg_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_trg_span_ p = hget (old h_hyperNode_trg_span_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_frontier_ p = hget (old h_hyperNode_frontier_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> hget h_hyperNode_viterbi_score_ p = hget (old h_hyperNode_viterbi_score_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
@loop 2
invariant { nextptr = (old nextptr + length (hyperGraph_nodes_ rhs)) + $i }
invariant { length (hyperGraph_nodes_ this) = length (hyperGraph_nodes_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + m }
invariant { length (hyperGraph_edges_ this) = $i }
invariant { forall m. 0 <= m < $i -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + m }
invariant { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
invariant { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
invariant { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
invariant { same (old h_hyperEdge_score_) h_hyperEdge_score_ (old nextptr) }
invariant { same (old h_hyperEdge_src_str_) h_hyperEdge_src_str_ (old nextptr) }
invariant { same (old h_hyperEdge_trg_data_) h_hyperEdge_trg_data_ (old nextptr) }
invariant { same (old h_hyperEdge_features_) h_hyperEdge_features_ (old nextptr) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_id_ p = hget (old h_hyperEdge_id_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_score_ p = hget (old h_hyperEdge_score_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_src_str_ p = hget (old h_hyperEdge_src_str_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_trg_data_ p = hget (old h_hyperEdge_trg_data_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_features_ p = hget (old h_hyperEdge_features_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
@loop 3
invariant { same (old h_ruleEdge_fragment_edges_) h_ruleEdge_fragment_edges_ (old nextptr) }
invariant { nextptr = (old nextptr + length (hyperGraph_nodes_ rhs)) + $i }
invariant { length (hyperGraph_nodes_ this) = length (hyperGraph_nodes_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + m }
invariant { length (hyperGraph_edges_ this) = $i }
invariant { forall m. 0 <= m < $i -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + m }
invariant { same (old h_hyperEdge_id_) h_hyperEdge_id_ (old nextptr) }
invariant { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
invariant { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
invariant { same (old h_hyperEdge_score_) h_hyperEdge_score_ (old nextptr) }
invariant { same (old h_hyperEdge_src_str_) h_hyperEdge_src_str_ (old nextptr) }
invariant { same (old h_hyperEdge_trg_data_) h_hyperEdge_trg_data_ (old nextptr) }
invariant { same (old h_hyperEdge_features_) h_hyperEdge_features_ (old nextptr) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_id_ p = hget (old h_hyperEdge_id_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_score_ p = hget (old h_hyperEdge_score_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_src_str_ p = hget (old h_hyperEdge_src_str_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_trg_data_ p = hget (old h_hyperEdge_trg_data_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_features_ p = hget (old h_hyperEdge_features_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_ruleEdge_fragment_edges_ p = hget (old h_ruleEdge_fragment_edges_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
@loop 4
invariant { length (hyperGraph_nodes_ this) = length (hyperGraph_nodes_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + m }
invariant { length (hyperGraph_edges_ this) = length (hyperGraph_edges_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_edges_ rhs) -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + m }
invariant { same (old h_hyperNode_edges_) h_hyperNode_edges_ (old nextptr) }
invariant { forall p. old nextptr + $i <= p < old nextptr + length (hyperGraph_nodes_ rhs) -> hget h_hyperNode_edges_ p = hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr] }
invariant { forall p. old nextptr <= p < old nextptr + $i -> length (hget h_hyperNode_edges_ p) = length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr]) }
invariant { forall p j. old nextptr <= p < old nextptr + $i -> 0 <= j < length (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr]) -> (hget h_hyperNode_edges_ p)[j] = (old nextptr + length (hyperGraph_nodes_ rhs)) + hget (old h_hyperEdge_id_) (hget (old h_hyperNode_edges_) (hyperGraph_nodes_ rhs)[p - old nextptr])[j] }
@ghost loop 4 start
assert { (hyperGraph_nodes_ this)[$i] = (nextptr at Entry) + $i };
assert { hget h_hyperNode_edges_ ((nextptr at Entry) + $i) = hget (h_hyperNode_edges_ at Entry) (hyperGraph_nodes_ rhs)[$i] };
assert { forall j. 0 <= j < length (hget (h_hyperNode_edges_ at Entry) (hyperGraph_nodes_ rhs)[$i]) -> ing (h_hyperEdge_id_ at Entry) (hyperGraph_edges_ rhs) (hget (h_hyperNode_edges_ at Entry) (hyperGraph_nodes_ rhs)[$i])[j] };
assert { forall p. p < (nextptr at Entry) -> hget h_hyperEdge_id_ p = hget (h_hyperEdge_id_ at Entry) p };
@loop 5
invariant { length (hyperGraph_nodes_ this) = length (hyperGraph_nodes_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_nodes_ rhs) -> (hyperGraph_nodes_ this)[m] = old nextptr + m }
invariant { length (hyperGraph_edges_ this) = length (hyperGraph_edges_ rhs) }
invariant { forall m. 0 <= m < length (hyperGraph_edges_ rhs) -> (hyperGraph_edges_ this)[m] = (old nextptr + length (hyperGraph_nodes_ rhs)) + m }
invariant { same (old h_hyperEdge_head_) h_hyperEdge_head_ (old nextptr) }
invariant { same (old h_hyperEdge_tails_) h_hyperEdge_tails_ (old nextptr) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + $i <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_head_ p = hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) + $i <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + length (hyperGraph_edges_ rhs) -> hget h_hyperEdge_tails_ p = hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))] }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> hget h_hyperEdge_head_ p = old nextptr + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_head_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) }
invariant { forall p. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> length (hget h_hyperEdge_tails_ p) = length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) }
invariant { forall p j. (old nextptr + length (hyperGraph_nodes_ rhs)) <= p < (old nextptr + length (hyperGraph_nodes_ rhs)) + $i -> 0 <= j < length (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))]) -> (hget h_hyperEdge_tails_ p)[j] = old nextptr + hget (old h_hyperNode_id_) (hget (old h_hyperEdge_tails_) (hyperGraph_edges_ rhs)[p - (old nextptr + length (hyperGraph_nodes_ rhs))])[j] }
@ghost loop 5 start
assert { (hyperGraph_edges_ this)[$i] = ((nextptr at Entry) + length (hyperGraph_nodes_ rhs)) + $i };
assert { hget h_hyperEdge_head_ (((nextptr at Entry) + length (hyperGraph_nodes_ rhs)) + $i) = hget (h_hyperEdge_head_ at Entry) (hyperGraph_edges_ rhs)[$i] };
assert { hget h_hyperEdge_tails_ (((nextptr at Entry) + length (hyperGraph_nodes_ rhs)) + $i) = hget (h_hyperEdge_tails_ at Entry) (hyperGraph_edges_ rhs)[$i] };
assert { ing (h_hyperNode_id_ at Entry) (hyperGraph_nodes_ rhs) (hget (h_hyperEdge_head_ at Entry) (hyperGraph_edges_ rhs)[$i]) };
assert { forall j. 0 <= j < length (hget (h_hyperEdge_tails_ at Entry) (hyperGraph_edges_ rhs)[$i]) -> ing (h_hyperNode_id_ at Entry) (hyperGraph_nodes_ rhs) (hget (h_hyperEdge_tails_ at Entry) (hyperGraph_edges_ rhs)[$i])[j] };
assert { forall p. p < (nextptr at Entry) -> hget h_hyperNode_id_ p = hget (h_hyperNode_id_ at Entry) p };
