@files src/lib/dict.cc src/lib/lookup-table.cc src/lib/lookup-table-hash.cc
@heapclass travatar::HyperNode travatar::HyperEdge travatar::LookupState
@ignorefield travatar::SymbolSet::mutex_
@need type travatar::SymbolSet
@need type travatar::SparseVector
@need global travatar::Dict::wids_
@need type travatar::LookupTableHash
@prelude2
predicate symtab (s: symbolSet) (h: heap (seq int)) (lim: int) =
  0 < lim /\
  (forall i. 0 <= i < length (symbolSet_vocab_ s) -> 0 < (symbolSet_vocab_ s)[i] < lim /\ fm_mem (symbolSet_map_ s) (hget h (symbolSet_vocab_ s)[i]) /\ fm_val (symbolSet_map_ s) (hget h (symbolSet_vocab_ s)[i]) = i) /\
  (forall k. fm_mem (symbolSet_map_ s) k -> 0 <= fm_val (symbolSet_map_ s) k < length (symbolSet_vocab_ s) /\ hget h (symbolSet_vocab_ s)[fm_val (symbolSet_map_ s) k] = k)
function nsym (s: symbolSet) : int = length (symbolSet_vocab_ s)
function symof (s: symbolSet) (h: heap (seq int)) (i: int) : seq int = hget h (symbolSet_vocab_ s)[i]
(* the parse forest under consideration: edges of a node, tails and features of an edge, symbol text of a node; rank decreases from heads to tails *)
constant g_ed : heap (seq int)
constant g_et : heap (seq int)
constant g_ef : heap sparseVector
constant g_lb : int -> seq int
constant dom : int -> bool
constant rank : int -> int
axiom dom_nn : forall n. dom n -> n <> 0 /\ rank n >= 0
axiom dom_ed : forall n i. dom n -> 0 <= i < length (hget g_ed n) -> (hget g_ed n)[i] <> 0
axiom dom_et : forall n i j. dom n -> 0 <= i < length (hget g_ed n) -> 0 <= j < length (hget g_et (hget g_ed n)[i]) -> let t = (hget g_et (hget g_ed n)[i])[j] in dom t /\ rank t < rank n
predicate forest (ed et: heap (seq int)) (ef: heap sparseVector) (sy: heap int) (s: symbolSet) (h: heap (seq int)) (lim: int) =
  ed = g_ed /\ et = g_et /\ ef = g_ef /\ symtab s h lim /\ forall n. dom n -> 0 <= hget sy n < nsym s /\ symof s h (hget sy n) = g_lb n
(* a partial match: the text so far, the nodes left open, the features of the edges used *)
type tri = { ts: seq int; tn: seq int; tf: sparseVector }
function stt (hs hn: heap (seq int)) (hf: heap sparseVector) (p: int) : tri = { ts = hget hs p; tn = hget hn p; tf = hget hf p }
(* the partial texts that the table knows *)
constant acc : seq int -> bool
function fadd (a b: sparseVector) : sparseVector
function s_open (n: int) (s: tri) : tri = { s with ts = ((if length s.ts = 0 then s.ts ++ s"" else s.ts ++ s" ") ++ g_lb n) ++ s" (" }
function s_close (s: tri) : tri = { s with ts = s.ts ++ s" )" }
function s_feat (s: tri) (e: int) : tri = { s with tf = fadd s.tf (hget g_ef e) }
function s_node (n: int) (s: tri) : tri =
  if length (hget g_ed n) = 0 then { s with ts = ((s.ts ++ s" \"") ++ g_lb n) ++ s"\"" }
  else { s with ts = (((s.ts ++ s" x") ++ itoa (length s.tn)) ++ s":") ++ g_lb n; tn = snoc s.tn n }
(* r comes from s by matching node n: n itself as a word or variable, or one of its edges with matches of all its tails in order *)
predicate mat (n: int) (s r: tri)
predicate mats (tl: seq int) (k: int) (s r: tri)
axiom mats_0 : forall tl s r. mats tl 0 s r <-> r = s
axiom mats_n : forall tl k s r. k > 0 -> (mats tl k s r <-> exists q. mats tl (k-1) s q /\ mat tl[k-1] q r)
axiom mat_def : forall n s r. mat n s r <-> ((r = s_node n s /\ acc r.ts) \/
  (acc (s_open n s).ts /\ exists i q. 0 <= i < length (hget g_ed n) /\ mats (hget g_et (hget g_ed n)[i]) (length (hget g_et (hget g_ed n)[i])) (s_open n s) q /\ acc (s_close q).ts /\ r = s_feat (s_close q) (hget g_ed n)[i]))
predicate live (l: seq int) (np: int) = forall i. 0 <= i < length l -> 0 < l[i] < np
(* p is a new state holding t, or null if the table does not know the text of t *)
predicate made (p: int) (t: tri) (hs hn: heap (seq int)) (hf: heap sparseVector) (np0 np: int) = np0 <= np /\ (p = 0 <-> not (acc t.ts)) /\ (p <> 0 -> np0 <= p < np /\ stt hs hn hf p = t)
(* states that existed before are unchanged *)
predicate keep (np: int) (hs0 hn0: heap (seq int)) (hf0: heap sparseVector) (hs hn: heap (seq int)) (hf: heap sparseVector) =
  forall p. p < np -> hget hs p = hget hs0 p /\ hget hn p = hget hn0 p /\ hget hf p = hget hf0 p
(* t is among the states of a list; r comes from one of the first i states of the list by matching n *)
predicate sto (hs hn: heap (seq int)) (hf: heap sparseVector) (l: seq int) (t: tri)
axiom sto_def : forall hs hn hf l t. sto hs hn hf l t <-> exists k. 0 <= k < length l /\ stt hs hn hf l[k] = t
lemma emp_l : forall s: seq int. empty ++ s = s
lemma sto_empty : forall hs hn hf t, l: seq int. length l = 0 -> not (sto hs hn hf l t)
lemma sto_one : forall hs hn hf t, l: seq int. length l = 1 -> (sto hs hn hf l t <-> stt hs hn hf l[0] = t)
lemma sto_snoc : forall hs hn hf t p, l: seq int. sto hs hn hf (snoc l p) t <-> (sto hs hn hf l t \/ stt hs hn hf p = t)
lemma sto_keep : forall hs hn hf hs1 hn1 hf1 t np, l: seq int [sto hs1 hn1 hf1 l t, keep np hs hn hf hs1 hn1 hf1]. live l np -> keep np hs hn hf hs1 hn1 hf1 -> (sto hs1 hn1 hf1 l t <-> sto hs hn hf l t)
predicate from (n: int) (hs hn: heap (seq int)) (hf: heap sparseVector) (l: seq int) (i: int) (r: tri)
axiom from_def : forall n hs hn hf l i r. from n hs hn hf l i r <-> exists k. 0 <= k < i /\ mat n (stt hs hn hf l[k]) r
lemma from_0 : forall n hs hn hf l r. not (from n hs hn hf l 0 r)
lemma from_n : forall n hs hn hf l i r. i >= 0 -> (from n hs hn hf l (i+1) r <-> (from n hs hn hf l i r \/ mat n (stt hs hn hf l[i]) r))
(* r comes from s by one of the first e edges of node n *)
predicate medge (n: int) (s: tri) (e: int) (r: tri) = exists q. mats (hget g_et (hget g_ed n)[e]) (length (hget g_et (hget g_ed n)[e])) (s_open n s) q /\ acc (s_close q).ts /\ r = s_feat (s_close q) (hget g_ed n)[e]
predicate medges (n: int) (s: tri) (e: int) (r: tri)
axiom medges_def : forall n s e r. medges n s e r <-> exists i. 0 <= i < e /\ medge n s i r
lemma medges_0 : forall n s r. not (medges n s 0 r)
lemma medges_n : forall n s e r. e >= 0 -> (medges n s (e+1) r <-> (medges n s e r \/ medge n s e r))
lemma mat_edges : forall n s r. mat n s r <-> ((r = s_node n s /\ acc r.ts) \/ (acc (s_open n s).ts /\ medges n s (length (hget g_ed n)) r))
lemma mats_step : forall hs hn hf l tl k s r. k >= 0 -> (forall q. sto hs hn hf l q <-> mats tl k s q) -> (from tl[k] hs hn hf l (length l) r <-> mats tl (k+1) s r)
lemma live_snoc : forall l: seq int, p np m. live l np -> np <= m -> 0 < p < m -> live (snoc l p) m
lemma live_le : forall l: seq int, np m. live l np -> np <= m -> live l m
lemma mat_miss : forall n s r. not (acc (s_open n s).ts) -> (mat n s r <-> (r = s_node n s /\ acc r.ts))
(* r closes one of the first i states of a list, after edge e *)
predicate fins (hs hn: heap (seq int)) (hf: heap sparseVector) (l: seq int) (e: int) (i: int) (r: tri)
axiom fins_def : forall hs hn hf l e i r. fins hs hn hf l e i r <-> exists k. 0 <= k < i /\ acc (s_close (stt hs hn hf l[k])).ts /\ r = s_feat (s_close (stt hs hn hf l[k])) e
lemma fins_0 : forall hs hn hf l e r. not (fins hs hn hf l e 0 r)
lemma fins_n : forall hs hn hf l e i r. i >= 0 -> (fins hs hn hf l e (i+1) r <-> (fins hs hn hf l e i r \/ (acc (s_close (stt hs hn hf l[i])).ts /\ r = s_feat (s_close (stt hs hn hf l[i])) e)))
lemma fins_edge : forall hs hn hf l n s i r. (forall q. sto hs hn hf l q <-> mats (hget g_et (hget g_ed n)[i]) (length (hget g_et (hget g_ed n)[i])) (s_open n s) q) ->
  (fins hs hn hf l (hget g_ed n)[i] (length l) r <-> medge n s i r)
@fn travatar::SymbolSet<int>::GetSymbol as ss_getSymbol
requires { symtab this hv_seq_int nextptr /\ 0 <= id < nsym this }
ensures { result = symof this hv_seq_int id }
@fn travatar::Dict::WSym
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ 0 <= id < nsym g_Dict_wids_ }
ensures { result = symof g_Dict_wids_ hv_seq_int id }
@fn travatar::LookupTableHash::MatchState as h_matchState
requires { forall s. acc s <-> fs_mem this.lookupTableHash_src_matches s }
requires { 0 < state < nextptr }
ensures { made result ({ (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state) with ts = next }) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@fn travatar::LookupTableHash::MatchStart as h_matchStart
requires { forall s. acc s <-> fs_mem this.lookupTableHash_src_matches s }
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom node /\ 0 < state < nextptr }
ensures { made result (s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@fn travatar::LookupTableHash::MatchEnd as h_matchEnd
requires { forall s. acc s <-> fs_mem this.lookupTableHash_src_matches s }
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom node /\ 0 < state < nextptr }
ensures { made result (s_close (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@fn travatar::LookupTableHash::MatchNode as h_matchNode
requires { forall s. acc s <-> fs_mem this.lookupTableHash_src_matches s }
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom node /\ 0 < state < nextptr }
ensures { made result (s_node node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@trusted travatar::LookupTable::MatchStart as v_matchStart
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom a0 /\ 0 < a1 < nextptr }
ensures { made result (s_open a0 (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) a1)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@writes h_lookupState_curr_string_ h_lookupState_features_ h_lookupState_nonterm_nodes_ nextptr
@trusted travatar::LookupTable::MatchEnd as v_matchEnd
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom a0 /\ 0 < a1 < nextptr }
ensures { made result (s_close (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) a1)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@writes h_lookupState_curr_string_ h_lookupState_features_ h_lookupState_nonterm_nodes_ nextptr
@trusted travatar::LookupTable::MatchNode as v_matchNode
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom a0 /\ 0 < a1 < nextptr }
ensures { made result (s_node a0 (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) a1)) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (old nextptr) nextptr }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
@writes h_lookupState_curr_string_ h_lookupState_features_ h_lookupState_nonterm_nodes_ nextptr
@trusted travatar::operator+= sig=[SparseVector&(SparseVector&] as sv_addeq
ensures { a0 = fadd (old a0) a1 }
raises { CxxThrow -> false }
@fn travatar::LookupTable::LookupSrc as lookupSrc
requires { forest h_hyperNode_edges_ h_hyperEdge_tails_ h_hyperEdge_features_ h_hyperNode_sym_ g_Dict_wids_ hv_seq_int nextptr }
requires { dom node /\ live old_states nextptr }
ensures { nextptr >= old nextptr /\ live result nextptr }
ensures { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ result r <-> from node (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) old_states (length old_states) r }
ensures { keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
raises { CxxThrow -> false }
variant { rank node }
@loop 1
invariant { nextptr >= old nextptr /\ keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
invariant { live ret_states nextptr }
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ ret_states r <-> from node (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) old_states $i r }
@loop 2
invariant { nextptr >= old nextptr /\ keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
invariant { live ret_states nextptr }
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { 0 < start_state < nextptr /\ stt h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ start_state = s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state) /\ acc (s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state)).ts }
invariant { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ ret_states r <-> (sto (h_lookupState_curr_string_ at L2) (h_lookupState_nonterm_nodes_ at L2) (h_lookupState_features_ at L2) (ret_states at L2) r \/ medges node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state) $i r) }
@loop 3
invariant { nextptr >= old nextptr /\ keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
invariant { live ret_states nextptr }
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { 0 < start_state < nextptr /\ stt h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ start_state = s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state) }
invariant { live my_states nextptr }
invariant { ret_states = (ret_states at L3) /\ keep (nextptr at L3) (h_lookupState_curr_string_ at L3) (h_lookupState_nonterm_nodes_ at L3) (h_lookupState_features_ at L3) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
invariant { forall q. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ my_states q <-> mats (hget g_et edge) $i (s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state)) q }
@loop 4
invariant { nextptr >= old nextptr /\ keep (old nextptr) (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ }
invariant { live ret_states nextptr }
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { 0 < start_state < nextptr /\ stt h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ start_state = s_open node (stt (old h_lookupState_curr_string_) (old h_lookupState_nonterm_nodes_) (old h_lookupState_features_) state) }
invariant { live my_states nextptr }
invariant { keep (nextptr at L4) (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ /\ nextptr >= nextptr at L4 /\ my_states = (my_states at L4) }
invariant { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ ret_states r <-> (sto (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) (ret_states at L4) r \/ fins (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) (my_states at L4) edge $i r) }
@ghost loop 4 end
assert { not (acc (s_close (stt (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) (my_states at L4)[$i])).ts) -> ret_states = (ret_states at I4) };
assert { acc (s_close (stt (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) (my_states at L4)[$i])).ts -> exists p. ret_states = snoc (ret_states at I4) p /\ stt h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ p = s_feat (s_close (stt (h_lookupState_curr_string_ at L4) (h_lookupState_nonterm_nodes_ at L4) (h_lookupState_features_ at L4) (my_states at L4)[$i])) edge };
assert { keep (nextptr at I4) (h_lookupState_curr_string_ at I4) (h_lookupState_nonterm_nodes_ at I4) (h_lookupState_features_ at I4) h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ };
assert { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ (ret_states at I4) r <-> sto (h_lookupState_curr_string_ at I4) (h_lookupState_nonterm_nodes_ at I4) (h_lookupState_features_ at I4) (ret_states at I4) r };
@ghost loop 2 before
assert { forall r. sto h_lookupState_curr_string_ h_lookupState_nonterm_nodes_ h_lookupState_features_ ret_states r <-> (sto (h_lookupState_curr_string_ at I1) (h_lookupState_nonterm_nodes_ at I1) (h_lookupState_features_ at I1) (ret_states at I1) r \/ (r = s_node node (stt (h_lookupState_curr_string_ at Entry) (h_lookupState_nonterm_nodes_ at Entry) (h_lookupState_features_ at Entry) state) /\ acc r.ts)) };
@ghost loop 3 end
assert { forall r. from (hget g_et edge)[$i] (h_lookupState_curr_string_ at I3) (h_lookupState_nonterm_nodes_ at I3) (h_lookupState_features_ at I3) (my_states at I3) (length (my_states at I3)) r <-> mats (hget g_et edge) ($i+1) (s_open node (stt (h_lookupState_curr_string_ at Entry) (h_lookupState_nonterm_nodes_ at Entry) (h_lookupState_features_ at Entry) state)) r };
