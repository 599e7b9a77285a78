@files src/lib/hiero-extractor.cc
@heapclass travatar::HieroRule
@prelude
predicate inside (a b: pair (pair int int) (pair int int)) = p1 (p1 a) >= p1 (p1 b) /\ p2 (p1 a) <= p2 (p1 b) /\ p1 (p2 a) >= p1 (p2 b) /\ p2 (p2 a) <= p2 (p2 b)
@fn travatar::HieroExtractor::MapMaxKey as max_key
requires { length (fm_keys map) > 0 /\ forall k. fm_mem map k -> k >= 0 }
ensures { fm_mem map result /\ forall k. fm_mem map k -> k <= result }
@loop 1
invariant { $i > 0 -> exists k. 0 <= k < $i /\ (fm_keys map)[k] = max }
invariant { $i = 0 -> max = 0 }
invariant { forall k. 0 <= k < $i -> (fm_keys map)[k] <= max }
@fn travatar::HieroExtractor::MapMinKey as min_key
requires { length (fm_keys map) > 0 }
ensures { fm_mem map result /\ forall k. fm_mem map k -> k >= result }
@loop 1
invariant { is_first <> 0 <-> $i = 0 }
invariant { $i > 0 -> exists k. 0 <= k < $i /\ (fm_keys map)[k] = min }
invariant { forall k. 0 <= k < $i -> (fm_keys map)[k] >= min }
@fn travatar::HieroExtractor::QuasiConsecutive as quasi
requires { 0 <= small /\ large < length t2s }
ensures { result <> 0 <-> forall i. small <= i <= large -> length (fs_keys t2s[i]) <> 0 -> fm_mem tp i }
@loop 1
invariant { small <= i /\ forall k. small <= k < i -> length (fs_keys t2s[k]) <> 0 -> fm_mem tp k }
variant { large - i + 1 }
@fn travatar::HieroExtractor::IsTerritoryOverlapping as terr_over
requires { p1 a <= p2 a /\ p1 b <= p2 b }
ensures { result <> 0 <-> exists x. p1 a <= x <= p2 a /\ p1 b <= x <= p2 b }
@ghost start
assert { p1 a <= p1 b <= p2 a -> exists x. x = p1 b /\ p1 a <= x <= p2 a /\ p1 b <= x <= p2 b };
assert { p1 b <= p1 a <= p2 b -> exists x. x = p1 a /\ p1 a <= x <= p2 a /\ p1 b <= x <= p2 b };
@fn travatar::HieroExtractor::IsPhraseOverlapping as phr_over
requires { p1 (p1 pair1) <= p2 (p1 pair1) /\ p1 (p2 pair1) <= p2 (p2 pair1) /\ p1 (p1 pair2) <= p2 (p1 pair2) /\ p1 (p2 pair2) <= p2 (p2 pair2) }
ensures { result <> 0 <-> ((exists x. p1 (p1 pair1) <= x <= p2 (p1 pair1) /\ p1 (p1 pair2) <= x <= p2 (p1 pair2)) \/ exists x. p1 (p2 pair1) <= x <= p2 (p2 pair1) /\ p1 (p2 pair2) <= x <= p2 (p2 pair2)) }
@fn travatar::HieroExtractor::InPhrase as in_phrase
ensures { result <> 0 <-> inside v_p1 v_p2 }
@prelude2
predicate nt_ok (w: seq int) (nt: fset int) = forall k. fs_mem nt k <-> (0 <= k < length w /\ w[k] < 0)
@fn travatar::HieroRule::AddWord as add_word
requires { non_term <> 0 <-> p2 word < 0 }
requires { nt_ok (hget h_hieroRule_src_words_ this) (hget h_hieroRule_src_nt_position_ this) /\ nt_ok (hget h_hieroRule_trg_words_ this) (hget h_hieroRule_trg_nt_position_ this) }
ensures { hget h_hieroRule_type_ this = 0 -> h_hieroRule_src_words_ = hset (old h_hieroRule_src_words_) this (snoc (hget (old h_hieroRule_src_words_) this) (p2 word)) /\ h_hieroRule_src_index_ = hset (old h_hieroRule_src_index_) this (snoc (hget (old h_hieroRule_src_index_) this) (p1 word)) /\ h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
ensures { hget h_hieroRule_type_ this = 1 -> h_hieroRule_trg_words_ = hset (old h_hieroRule_trg_words_) this (snoc (hget (old h_hieroRule_trg_words_) this) (p2 word)) /\ h_hieroRule_trg_index_ = hset (old h_hieroRule_trg_index_) this (snoc (hget (old h_hieroRule_trg_index_) this) (p1 word)) /\ h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ }
ensures { nt_ok (hget h_hieroRule_src_words_ this) (hget h_hieroRule_src_nt_position_ this) /\ nt_ok (hget h_hieroRule_trg_words_ this) (hget h_hieroRule_trg_nt_position_ this) }
ensures { forall p. p <> this -> hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p }
ensures { hget h_hieroRule_type_ this = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ this)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) this)) + (if non_term <> 0 then 1 else 0) }
ensures { hget h_hieroRule_type_ this = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ this)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) this)) + (if non_term <> 0 then 1 else 0) }
@fn travatar::HieroRule::AddNontermX as add_x
requires { number >= 0 }
requires { nt_ok (hget h_hieroRule_src_words_ this) (hget h_hieroRule_src_nt_position_ this) /\ nt_ok (hget h_hieroRule_trg_words_ this) (hget h_hieroRule_trg_nt_position_ this) }
ensures { hget h_hieroRule_type_ this = 0 -> h_hieroRule_src_words_ = hset (old h_hieroRule_src_words_) this (snoc (hget (old h_hieroRule_src_words_) this) (-1 - number)) /\ h_hieroRule_src_index_ = hset (old h_hieroRule_src_index_) this (snoc (hget (old h_hieroRule_src_index_) this) (-1)) /\ h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
ensures { hget h_hieroRule_type_ this = 1 -> h_hieroRule_trg_words_ = hset (old h_hieroRule_trg_words_) this (snoc (hget (old h_hieroRule_trg_words_) this) (-1 - number)) /\ h_hieroRule_trg_index_ = hset (old h_hieroRule_trg_index_) this (snoc (hget (old h_hieroRule_trg_index_) this) (-1)) /\ h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ }
ensures { nt_ok (hget h_hieroRule_src_words_ this) (hget h_hieroRule_src_nt_position_ this) /\ nt_ok (hget h_hieroRule_trg_words_ this) (hget h_hieroRule_trg_nt_position_ this) }
ensures { forall p. p <> this -> hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p }
ensures { hget h_hieroRule_type_ this = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ this)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) this)) + 1 }
ensures { hget h_hieroRule_type_ this = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ this)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) this)) + 1 }
@fn travatar::HieroRule::IsNTSideBySide as side_by_side
requires { rule <> 0 }
ensures { result <-> exists k. 0 <= k < length (hget h_hieroRule_src_words_ rule) - 1 /\ (hget h_hieroRule_src_words_ rule)[k] < 0 /\ (hget h_hieroRule_src_words_ rule)[k+1] < 0 }
@loop 1
invariant { forall k. 0 <= k < i-1 -> not ((hget h_hieroRule_src_words_ rule)[k] < 0 /\ (hget h_hieroRule_src_words_ rule)[k+1] < 0) }
@fn travatar::HieroRule::SetPenalty as set_pen
ensures { hget h_hieroRule_type_ this = 0 /\ hget (old h_hieroRule_src_penalty_) this = -1 -> hget h_hieroRule_src_penalty_ this = value }
ensures { hget h_hieroRule_type_ this = 1 /\ hget (old h_hieroRule_trg_penalty_) this = -1 -> hget h_hieroRule_trg_penalty_ this = value }
@prelude2
(* terminals among the first n symbols *)
function nterm (w: seq int) (n: int) : int
axiom nterm_0 : forall w. nterm w 0 = 0
axiom nterm_s : forall w n. 0 <= n < length w -> nterm w (n+1) = nterm w n + (if w[n] >= 0 then 1 else 0)
predicate uniq (w ix: seq int) = length ix = length w /\ forall i j. 0 <= i < j < length w -> w[i] >= 0 -> w[j] >= 0 -> ix[i] <> ix[j]
@fn travatar::HieroRule::ShiftAlignment as shift_al
requires { uniq (hget h_hieroRule_src_words_ this) (hget h_hieroRule_src_index_ this) /\ uniq (hget h_hieroRule_trg_words_ this) (hget h_hieroRule_trg_index_ this) }
ensures { length (hget h_hieroRule_alignments_ this) = length (hget (old h_hieroRule_alignments_) this) /\ forall p. p <> this -> hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
ensures { forall m i. 0 <= m < length (hget h_hieroRule_alignments_ this) -> 0 <= i < length (hget h_hieroRule_src_words_ this) -> (hget h_hieroRule_src_words_ this)[i] >= 0 -> (hget h_hieroRule_src_index_ this)[i] = p1 (hget (old h_hieroRule_alignments_) this)[m] -> p1 (hget h_hieroRule_alignments_ this)[m] = nterm (hget h_hieroRule_src_words_ this) i }
ensures { forall m i. 0 <= m < length (hget h_hieroRule_alignments_ this) -> 0 <= i < length (hget h_hieroRule_trg_words_ this) -> (hget h_hieroRule_trg_words_ this)[i] >= 0 -> (hget h_hieroRule_trg_index_ this)[i] = p2 (hget (old h_hieroRule_alignments_) this)[m] -> p2 (hget h_hieroRule_alignments_ this)[m] = nterm (hget h_hieroRule_trg_words_ this) i }
@loop 1
invariant { 0 <= position <= length (hget h_hieroRule_src_words_ this) /\ nterm (hget h_hieroRule_src_words_ this) position = 0 /\ forall k. 0 <= k < position -> (hget h_hieroRule_src_words_ this)[k] < 0 }
variant { length (hget h_hieroRule_src_words_ this) - position }
@loop 2
invariant { i <= length (hget h_hieroRule_src_words_ this) /\ index = nterm (hget h_hieroRule_src_words_ this) i }
invariant { forall k. 0 <= k < i -> (hget h_hieroRule_src_words_ this)[k] >= 0 -> fm_mem src_shift (hget h_hieroRule_src_index_ this)[k] /\ fm_val src_shift (hget h_hieroRule_src_index_ this)[k] = nterm (hget h_hieroRule_src_words_ this) k }
@loop 3
invariant { 0 <= position <= length (hget h_hieroRule_trg_words_ this) /\ nterm (hget h_hieroRule_trg_words_ this) position = 0 /\ forall k. 0 <= k < position -> (hget h_hieroRule_trg_words_ this)[k] < 0 }
variant { length (hget h_hieroRule_trg_words_ this) - position }
@loop 4
invariant { i <= length (hget h_hieroRule_trg_words_ this) /\ index = nterm (hget h_hieroRule_trg_words_ this) i }
invariant { forall k. 0 <= k < i -> (hget h_hieroRule_trg_words_ this)[k] >= 0 -> fm_mem trg_shift (hget h_hieroRule_trg_index_ this)[k] /\ fm_val trg_shift (hget h_hieroRule_trg_index_ this)[k] = nterm (hget h_hieroRule_trg_words_ this) k }
@loop 5
invariant { length (hget h_hieroRule_alignments_ this) = length (hget (old h_hieroRule_alignments_) this) /\ forall p. p <> this -> hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
invariant { forall m. i <= m < length (hget h_hieroRule_alignments_ this) -> (hget h_hieroRule_alignments_ this)[m] = (hget (old h_hieroRule_alignments_) this)[m] }
invariant { forall k. 0 <= k < length (hget h_hieroRule_src_words_ this) -> (hget h_hieroRule_src_words_ this)[k] >= 0 -> fm_mem src_shift (hget h_hieroRule_src_index_ this)[k] /\ fm_val src_shift (hget h_hieroRule_src_index_ this)[k] = nterm (hget h_hieroRule_src_words_ this) k }
invariant { forall k. 0 <= k < length (hget h_hieroRule_trg_words_ this) -> (hget h_hieroRule_trg_words_ this)[k] >= 0 -> fm_mem trg_shift (hget h_hieroRule_trg_index_ this)[k] /\ fm_val trg_shift (hget h_hieroRule_trg_index_ this)[k] = nterm (hget h_hieroRule_trg_words_ this) k }
invariant { forall m k. 0 <= m < i -> 0 <= k < length (hget h_hieroRule_src_words_ this) -> (hget h_hieroRule_src_words_ this)[k] >= 0 -> (hget h_hieroRule_src_index_ this)[k] = p1 (hget (old h_hieroRule_alignments_) this)[m] -> p1 (hget h_hieroRule_alignments_ this)[m] = nterm (hget h_hieroRule_src_words_ this) k }
invariant { forall m k. 0 <= m < i -> 0 <= k < length (hget h_hieroRule_trg_words_ this) -> (hget h_hieroRule_trg_words_ this)[k] >= 0 -> (hget h_hieroRule_trg_index_ this)[k] = p2 (hget (old h_hieroRule_alignments_) this)[m] -> p2 (hget h_hieroRule_alignments_ this)[m] = nterm (hget h_hieroRule_trg_words_ this) k }
@fn travatar::HieroExtractor::IsRuleValid as rule_valid
requires { rule <> 0 }
requires { length (fs_keys (hget h_hieroRule_src_nt_position_ rule)) = length (fs_keys (hget h_hieroRule_trg_nt_position_ rule)) }
requires { length (fs_keys (hget h_hieroRule_src_nt_position_ rule)) <= length (hget h_hieroRule_src_words_ rule) /\ length (fs_keys (hget h_hieroRule_trg_nt_position_ rule)) <= length (hget h_hieroRule_trg_words_ rule) }
requires { max_terminals >= 0 }
ensures { result <-> (0 < length (hget h_hieroRule_src_words_ rule) - length (fs_keys (hget h_hieroRule_src_nt_position_ rule)) <= max_terminals /\ 0 < length (hget h_hieroRule_trg_words_ rule) - length (fs_keys (hget h_hieroRule_trg_nt_position_ rule)) <= max_terminals /\ not (exists k. 0 <= k < length (hget h_hieroRule_src_words_ rule) - 1 /\ (hget h_hieroRule_src_words_ rule)[k] < 0 /\ (hget h_hieroRule_src_words_ rule)[k+1] < 0)) }
raises { CxxThrow -> false }
@prelude2
predicate inr (r: seq (pair (pair int int) (pair int int))) (a: pair (pair int int) (pair int int))
axiom inr_def : forall r a. inr r a <-> exists k. 0 <= k < length r /\ r[k] = a
lemma inr_empty : forall a. not (inr (empty: seq (pair (pair int int) (pair int int))) a)
let lemma inr_snoc1 (r: seq (pair (pair int int) (pair int int))) (x a: pair (pair int int) (pair int int)) requires { inr (snoc r x) a } ensures { inr r a \/ a = x }
= assert { exists k. 0 <= k < length (snoc r x) /\ (snoc r x)[k] = a /\ (k < length r -> r[k] = a) by inr (snoc r x) a /\ forall k. 0 <= k < length r -> (snoc r x)[k] = r[k] }
let lemma inr_snoc2 (r: seq (pair (pair int int) (pair int int))) (x a: pair (pair int int) (pair int int)) requires { inr r a \/ a = x } ensures { inr (snoc r x) a }
= assert { (snoc r x)[length r] = x /\ forall k. 0 <= k < length r -> (snoc r x)[k] = r[k] }
predicate link (s2t: seq (fset int)) (s t: int) = 0 <= s < length s2t /\ fs_mem s2t[s] t
(* a consistent phrase pair: a link inside, and no link leaves the pair on either side *)
predicate phr (mx nt: int) (s2t: seq (fset int)) (sb se tb te: int) = 0 <= sb <= se < length s2t /\ se - sb < mx /\ 0 <= tb <= te < nt /\ te - tb < mx /\
  (exists s t. link s2t s t /\ sb <= s <= se /\ tb <= t <= te) /\ forall s t. link s2t s t -> (sb <= s <= se <-> tb <= t <= te)
predicate hit (s2t: seq (fset int)) (a b k: int)
axiom hit_def : forall s2t a b k. hit s2t a b k <-> exists s. a <= s < b /\ link s2t s k
lemma hit_in : forall s2t a b k s. a <= s < b -> link s2t s k -> hit s2t a b k
lemma hit_0 : forall s2t a k. not (hit s2t a a k)
lemma hit_s1 : forall s2t a b k. a <= b -> hit s2t a (b+1) k -> hit s2t a b k \/ link s2t b k
lemma hit_s2 : forall s2t a b k. a <= b -> hit s2t a b k \/ link s2t b k -> hit s2t a (b+1) k
predicate hitt (s2t: seq (fset int)) (a b s: int)
axiom hitt_def : forall s2t a b s. hitt s2t a b s <-> exists k. a <= k < b /\ link s2t s k
lemma hitt_in : forall s2t a b k s. a <= k < b -> link s2t s k -> hitt s2t a b s
lemma hitt_0 : forall s2t a s. not (hitt s2t a a s)
lemma hitt_s1 : forall s2t a b s. a <= b -> hitt s2t a (b+1) s -> hitt s2t a b s \/ link s2t s b
lemma hitt_s2 : forall s2t a b s. a <= b -> hitt s2t a b s \/ link s2t s b -> hitt s2t a (b+1) s
lemma fs_nonempty1 : forall s: fset int. length (fs_keys s) <> 0 -> fs_mem s (fs_keys s)[0]
lemma fs_nonempty2 : forall s: fset int, k. fs_mem s k -> length (fs_keys s) > 0 by 0 <= fs_idx s k < length (fs_keys s)
lemma fm_nonempty1 : forall s: fmap int int. length (fm_keys s) <> 0 -> fm_mem s (fm_keys s)[0]
lemma fm_nonempty2 : forall s: fmap int int, k. fm_mem s k -> length (fm_keys s) > 0 by 0 <= fm_idx s k < length (fm_keys s)
@fn travatar::HieroExtractor::ExtractPhrase sig=[constvector<set] as extract_phrase
requires { forall s t. link s2t s t -> 0 <= t < length target }
ensures { forall sb se tb te. inr result (mkp (mkp sb se) (mkp tb te)) <-> phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te }
@loop 1
invariant { length t2s = t /\ t <= length target /\ forall k. 0 <= k < t -> t2s[k] = (fs_empty: fset int) }
@loop 2
invariant { s <= length s2t /\ forall t x. 0 <= t < length t2s -> (fs_mem t2s[t] x <-> (0 <= x < s /\ fs_mem s2t[x] t)) }
@loop 3
invariant { forall t x. 0 <= t < length t2s -> (fs_mem t2s[t] x <-> ((0 <= x < s /\ fs_mem s2t[x] t) \/ (x = s /\ fs_mem ts t /\ fs_idx ts t < $i))) }
@loop 4
invariant { 0 <= s_begin <= length s2t /\ forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> (sb < s_begin /\ phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te) }
@loop 5
invariant { s_begin <= s_end }
invariant { forall k. fm_mem tp k <-> hit s2t s_begin s_end k }
invariant { forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> ((sb < s_begin \/ (sb = s_begin /\ se < s_end)) /\ phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te) }
@loop 6
invariant { forall k. fm_mem tp k <-> (fm_mem (tp at L6) k \/ (fs_mem s2t[s_end] k /\ fs_idx s2t[s_end] k < $i)) }
@loop 7
invariant { t_begin <= t <= t_end + 1 }
invariant { forall k. fm_mem sp k <-> hitt s2t t_begin t k }
@loop 8
invariant { forall k. fm_mem sp k <-> (fm_mem (sp at L8) k \/ (fs_mem t2s[t] k /\ fs_idx t2s[t] k < $i)) }
@ghost loop 5 end
assert { forall k. fm_mem tp k <-> hit s2t s_begin (s_end+1) k };
assert { forall tb te k. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> fm_mem tp k -> tb <= k <= te };
assert { forall tb te. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> exists s k. s_begin <= s < s_end+1 /\ link s2t s k };
assert { forall tb te. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> exists k. hit s2t s_begin (s_end+1) k };
assert { forall tb te. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> exists k. fm_mem tp k };
@ghost loop 7 end
assert { forall k. hitt s2t t_begin (t+1) k <-> (hitt s2t t_begin t k \/ link s2t k t) };
assert { forall k. fm_mem sp k <-> (fm_mem (sp at I7) k \/ link s2t k t) };
@ghost loop 7 after
assert { forall k. fm_mem tp k <-> hit s2t s_begin (s_end+1) k };
assert { forall k. fm_mem sp k <-> hitt s2t t_begin (t_end+1) k };
assert { exists s. link s2t s t_begin };
assert { exists s. hitt s2t t_begin (t_end+1) s };
assert { exists s. fm_mem sp s };
assert { forall tb te k. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> fm_mem tp k -> tb <= k <= te };
assert { forall tb te s. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> hitt s2t t_begin (t_end+1) s -> (s_begin <= s <= s_end by exists x. t_begin <= x <= t_end /\ link s2t s x) };
@ghost loop 9 before
assert { forall s x. link s2t s x -> s_begin <= s <= s_end -> (t_begin <= x <= t_end by fm_mem tp x by hit s2t s_begin (s_end+1) x) };
assert { forall s. fm_mem sp s -> s_begin <= s <= s_end };
assert { forall s x. link s2t s x -> t_begin <= x <= t_end -> hitt s2t t_begin (t_end+1) s };
assert { forall s x. link s2t s x -> t_begin <= x <= t_end -> fm_mem sp s };
assert { forall s x. link s2t s x -> t_begin <= x <= t_end -> s_begin <= s <= s_end };
assert { fm_mem tp t_begin /\ fm_mem tp t_end /\ exists s. link s2t s t_begin };
assert { forall tb te. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t s_begin s_end tb te -> tb <= t_begin /\ te >= t_end };
@ghost loop 10 after
assert { forall sb se tb te. sb = s_begin -> se = s_end -> tb = t_begin -> (phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te <-> t_end <= te < jp) };
assert { forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> ((sb < s_begin \/ (sb = s_begin /\ (se < s_end \/ (se = s_end /\ t_begin <= tb)))) /\ phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te) };
@ghost loop 9 after
assert { forall sb se tb te. phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te -> sb = s_begin -> se = s_end -> tb > t_begin };
assert { forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> ((sb < s_begin \/ (sb = s_begin /\ se <= s_end)) /\ phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te) };
@loop 9
invariant { 0 <= t_begin <= (t_begin at L9) }
invariant { forall x s. t_begin <= x < (t_begin at L9) -> not (link s2t s x) }
invariant { forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> ((sb < s_begin \/ (sb = s_begin /\ (se < s_end \/ (se = s_end /\ t_begin < tb)))) /\ phr (hieroExtractor_max_initial_phrase_ this) (length target) s2t sb se tb te) }
variant { t_begin }
@loop 10
invariant { t_end <= jp /\ (jp <= t_last) }
invariant { forall x s. t_end < x < jp -> not (link s2t s x) }
invariant { forall sb se tb te. inr ret (mkp (mkp sb se) (mkp tb te)) <-> (inr (ret at L10) (mkp (mkp sb se) (mkp tb te)) \/ (sb = s_begin /\ se = s_end /\ tb = t_begin /\ t_end <= te < jp)) }
variant { t_last - jp }
@prelude2
(* what a side of a rule looks like: the span b.. with the sub-spans a and c replaced by variables 0 and 1 *)
function emit (w: seq int) (a c: pair int int) (b n: int) : seq int
axiom emit_0 : forall w a c b. emit w a c b 0 = (empty: seq int)
axiom emit_s : forall w a c b n. n >= 0 -> emit w a c b (n+1) = (let k = b + n in if p1 a <= k <= p2 a then (if k = p2 a then snoc (emit w a c b n) (-1) else emit w a c b n) else if p1 c <= k <= p2 c then (if k = p2 c then snoc (emit w a c b n) (-2) else emit w a c b n) else snoc (emit w a c b n) w[k])
function emiti (a c: pair int int) (b n: int) : seq int
axiom emiti_0 : forall a c b. emiti a c b 0 = (empty: seq int)
axiom emiti_s : forall a c b n. n >= 0 -> emiti a c b (n+1) = (let k = b + n in if p1 a <= k <= p2 a then (if k = p2 a then snoc (emiti a c b n) (-1) else emiti a c b n) else if p1 c <= k <= p2 c then (if k = p2 c then snoc (emiti a c b n) (-1) else emiti a c b n) else snoc (emiti a c b n) k)
(* links of the terminals of the source side *)
function kp (k: int) (s: fset int) (n: int) : seq (pair int int)
axiom kp_0 : forall k s. kp k s 0 = (empty: seq (pair int int))
axiom kp_s : forall k s n. 0 <= n < length (fs_keys s) -> kp k s (n+1) = snoc (kp k s n) (mkp k (fs_keys s)[n])
function emita (al: seq (fset int)) (a c: pair int int) (b n: int) : seq (pair int int)
axiom emita_0 : forall al a c b. emita al a c b 0 = (empty: seq (pair int int))
axiom emita_s : forall al a c b n. n >= 0 -> emita al a c b (n+1) = (let k = b + n in if p1 a <= k <= p2 a \/ p1 c <= k <= p2 c then emita al a c b n else emita al a c b n ++ kp k al[k] (length (fs_keys al[k])))
lemma papp_empty : forall s: seq (pair int int). s ++ (empty: seq (pair int int)) = s by s ++ (empty: seq (pair int int)) == s
lemma papp_snoc : forall a b: seq (pair int int), x. snoc (a ++ b) x = a ++ snoc b x by snoc (a ++ b) x == a ++ snoc b x
let rec lemma emit_len (w: seq int) (a c: pair int int) (b n: int) requires { n >= 0 /\ b >= 0 /\ b + n <= length w /\ forall i. 0 <= i < length w -> w[i] >= 0 }
  ensures { length (emiti a c b n) = length (emit w a c b n) }
  ensures { forall i. 0 <= i < length (emit w a c b n) -> (((emit w a c b n)[i] < 0 <-> (emiti a c b n)[i] < 0) /\ (emiti a c b n)[i] < b + n) }
  ensures { forall i j. 0 <= i < j < length (emit w a c b n) -> (emiti a c b n)[i] >= 0 -> (emiti a c b n)[j] >= 0 -> (emiti a c b n)[i] < (emiti a c b n)[j] }
  variant { n }
= if n > 0 then begin emit_len w a c b (n-1); assert { n = (n-1)+1 /\ let k = b+(n-1) in emit w a c b n = (if p1 a <= k <= p2 a then (if k = p2 a then snoc (emit w a c b (n-1)) (-1) else emit w a c b (n-1)) else if p1 c <= k <= p2 c then (if k = p2 c then snoc (emit w a c b (n-1)) (-2) else emit w a c b (n-1)) else snoc (emit w a c b (n-1)) w[k]) };
 assert { let k = b+(n-1) in emiti a c b n = (if p1 a <= k <= p2 a then (if k = p2 a then snoc (emiti a c b (n-1)) (-1) else emiti a c b (n-1)) else if p1 c <= k <= p2 c then (if k = p2 c then snoc (emiti a c b (n-1)) (-1) else emiti a c b (n-1)) else snoc (emiti a c b (n-1)) k) } end
@fn travatar::HieroExtractor::ParseRuleWith1Nonterminals as parse1
requires { 0 < target < nextptr /\ (v_type = 0 \/ v_type = 1) }
requires { 0 <= p1 pair_span <= p2 pair_span < length sentence /\ forall k. 0 <= k < length sentence -> sentence[k] >= 0 }
requires { v_type = 0 -> p2 pair_span < length align }
requires { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
requires { v_type = 0 -> hget h_hieroRule_src_words_ target = (empty: seq int) /\ hget h_hieroRule_src_index_ target = (empty: seq int) /\ hget h_hieroRule_alignments_ target = (empty: seq (pair int int)) }
requires { v_type = 1 -> hget h_hieroRule_trg_words_ target = (empty: seq int) /\ hget h_hieroRule_trg_index_ target = (empty: seq int) }
requires { p1 pair_span <= p1 my_pair <= p2 my_pair <= p2 pair_span }
ensures { v_type = 0 -> hget h_hieroRule_src_words_ target = emit sentence my_pair (mkp 1 0) (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) /\ hget h_hieroRule_src_index_ target = emiti my_pair (mkp 1 0) (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { v_type = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) target)) + 1 }
ensures { v_type = 1 -> hget h_hieroRule_trg_words_ target = emit sentence my_pair (mkp 1 0) (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) /\ hget h_hieroRule_trg_index_ target = emiti my_pair (mkp 1 0) (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { v_type = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) target)) + 1 }
ensures { v_type = 0 -> hget h_hieroRule_alignments_ target = emita align my_pair (mkp 1 0) (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { hget h_hieroRule_type_ target = v_type }
ensures { v_type = 0 -> h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
ensures { v_type = 1 -> h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ /\ h_hieroRule_alignments_ = old h_hieroRule_alignments_ }
ensures { forall p. p <> target -> hget h_hieroRule_src_words_ p = hget (old h_hieroRule_src_words_) p /\ hget h_hieroRule_src_index_ p = hget (old h_hieroRule_src_index_) p /\ hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_words_ p = hget (old h_hieroRule_trg_words_) p /\ hget h_hieroRule_trg_index_ p = hget (old h_hieroRule_trg_index_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p /\ hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
ensures { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
@loop 1
invariant { p1 pair_span <= i <= p2 pair_span + 1 }
invariant { x = if p1 my_pair <= i - 1 <= p2 my_pair then 1 else 0 }
invariant { v_type = 0 -> (if (i - 1 = p2 my_pair) then snoc (hget h_hieroRule_src_words_ target) (-1) else hget h_hieroRule_src_words_ target) = emit sentence my_pair (mkp 1 0) (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 0 -> (if (i - 1 = p2 my_pair) then snoc (hget h_hieroRule_src_index_ target) (-1) else hget h_hieroRule_src_index_ target) = emiti my_pair (mkp 1 0) (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) target)) + (if i - 1 > p2 my_pair then 1 else 0) }
invariant { v_type = 1 -> (if (i - 1 = p2 my_pair) then snoc (hget h_hieroRule_trg_words_ target) (-1) else hget h_hieroRule_trg_words_ target) = emit sentence my_pair (mkp 1 0) (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 1 -> (if (i - 1 = p2 my_pair) then snoc (hget h_hieroRule_trg_index_ target) (-1) else hget h_hieroRule_trg_index_ target) = emiti my_pair (mkp 1 0) (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) target)) + (if i - 1 > p2 my_pair then 1 else 0) }
invariant { v_type = 0 -> hget h_hieroRule_alignments_ target = emita align my_pair (mkp 1 0) (p1 pair_span) (i - p1 pair_span) }
invariant { hget h_hieroRule_type_ target = v_type }
invariant { v_type = 0 -> h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
invariant { v_type = 1 -> h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ /\ h_hieroRule_alignments_ = old h_hieroRule_alignments_ }
invariant { forall p. p <> target -> hget h_hieroRule_src_words_ p = hget (old h_hieroRule_src_words_) p /\ hget h_hieroRule_src_index_ p = hget (old h_hieroRule_src_index_) p /\ hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_words_ p = hget (old h_hieroRule_trg_words_) p /\ hget h_hieroRule_trg_index_ p = hget (old h_hieroRule_trg_index_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p /\ hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
invariant { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
variant { p2 pair_span + 1 - i }
@loop 2
invariant { hget h_hieroRule_alignments_ target = hget (h_hieroRule_alignments_ at L2) target ++ kp i align[i] $i }
invariant { forall p. p <> target -> hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
@ghost loop 1 end
assert { let n = i - p1 pair_span in n >= 0 /\ i + 1 - p1 pair_span = n + 1 };
@fn travatar::HieroExtractor::ParseRuleWith2Nonterminals as parse2
requires { 0 < target < nextptr /\ (v_type = 0 \/ v_type = 1) }
requires { 0 <= p1 pair_span <= p2 pair_span < length sentence /\ forall k. 0 <= k < length sentence -> sentence[k] >= 0 }
requires { v_type = 0 -> p2 pair_span < length align }
requires { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
requires { v_type = 0 -> hget h_hieroRule_src_words_ target = (empty: seq int) /\ hget h_hieroRule_src_index_ target = (empty: seq int) /\ hget h_hieroRule_alignments_ target = (empty: seq (pair int int)) }
requires { v_type = 1 -> hget h_hieroRule_trg_words_ target = (empty: seq int) /\ hget h_hieroRule_trg_index_ target = (empty: seq int) }
requires { p1 pair_span <= p1 pair1 <= p2 pair1 <= p2 pair_span /\ p1 pair_span <= p1 pair2 <= p2 pair2 <= p2 pair_span /\ (p2 pair1 < p1 pair2 \/ p2 pair2 < p1 pair1) }
ensures { v_type = 0 -> hget h_hieroRule_src_words_ target = emit sentence pair1 pair2 (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) /\ hget h_hieroRule_src_index_ target = emiti pair1 pair2 (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { v_type = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) target)) + 2 }
ensures { v_type = 1 -> hget h_hieroRule_trg_words_ target = emit sentence pair1 pair2 (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) /\ hget h_hieroRule_trg_index_ target = emiti pair1 pair2 (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { v_type = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) target)) + 2 }
ensures { v_type = 0 -> hget h_hieroRule_alignments_ target = emita align pair1 pair2 (p1 pair_span) (p2 pair_span + 1 - p1 pair_span) }
ensures { hget h_hieroRule_type_ target = v_type }
ensures { v_type = 0 -> h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
ensures { v_type = 1 -> h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ /\ h_hieroRule_alignments_ = old h_hieroRule_alignments_ }
ensures { forall p. p <> target -> hget h_hieroRule_src_words_ p = hget (old h_hieroRule_src_words_) p /\ hget h_hieroRule_src_index_ p = hget (old h_hieroRule_src_index_) p /\ hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_words_ p = hget (old h_hieroRule_trg_words_) p /\ hget h_hieroRule_trg_index_ p = hget (old h_hieroRule_trg_index_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p /\ hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
ensures { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
@loop 1
invariant { p1 pair_span <= i <= p2 pair_span + 1 }
invariant { (x0 = if p1 pair1 <= i - 1 <= p2 pair1 then 1 else 0) /\ (x1 = if p1 pair2 <= i - 1 <= p2 pair2 then 1 else 0) }
invariant { v_type = 0 -> (if (i - 1 = p2 pair1 \/ i - 1 = p2 pair2) then snoc (hget h_hieroRule_src_words_ target) (if i - 1 = p2 pair1 then -1 else -2) else hget h_hieroRule_src_words_ target) = emit sentence pair1 pair2 (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 0 -> (if (i - 1 = p2 pair1 \/ i - 1 = p2 pair2) then snoc (hget h_hieroRule_src_index_ target) (-1) else hget h_hieroRule_src_index_ target) = emiti pair1 pair2 (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 0 -> length (fs_keys (hget h_hieroRule_src_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_src_nt_position_) target)) + (if i - 1 > p2 pair1 then 1 else 0) + (if i - 1 > p2 pair2 then 1 else 0) }
invariant { v_type = 1 -> (if (i - 1 = p2 pair1 \/ i - 1 = p2 pair2) then snoc (hget h_hieroRule_trg_words_ target) (if i - 1 = p2 pair1 then -1 else -2) else hget h_hieroRule_trg_words_ target) = emit sentence pair1 pair2 (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 1 -> (if (i - 1 = p2 pair1 \/ i - 1 = p2 pair2) then snoc (hget h_hieroRule_trg_index_ target) (-1) else hget h_hieroRule_trg_index_ target) = emiti pair1 pair2 (p1 pair_span) (i - p1 pair_span) }
invariant { v_type = 1 -> length (fs_keys (hget h_hieroRule_trg_nt_position_ target)) = length (fs_keys (hget (old h_hieroRule_trg_nt_position_) target)) + (if i - 1 > p2 pair1 then 1 else 0) + (if i - 1 > p2 pair2 then 1 else 0) }
invariant { v_type = 0 -> hget h_hieroRule_alignments_ target = emita align pair1 pair2 (p1 pair_span) (i - p1 pair_span) }
invariant { hget h_hieroRule_type_ target = v_type }
invariant { v_type = 0 -> h_hieroRule_trg_words_ = old h_hieroRule_trg_words_ /\ h_hieroRule_trg_index_ = old h_hieroRule_trg_index_ /\ h_hieroRule_trg_nt_position_ = old h_hieroRule_trg_nt_position_ }
invariant { v_type = 1 -> h_hieroRule_src_words_ = old h_hieroRule_src_words_ /\ h_hieroRule_src_index_ = old h_hieroRule_src_index_ /\ h_hieroRule_src_nt_position_ = old h_hieroRule_src_nt_position_ /\ h_hieroRule_alignments_ = old h_hieroRule_alignments_ }
invariant { forall p. p <> target -> hget h_hieroRule_src_words_ p = hget (old h_hieroRule_src_words_) p /\ hget h_hieroRule_src_index_ p = hget (old h_hieroRule_src_index_) p /\ hget h_hieroRule_src_nt_position_ p = hget (old h_hieroRule_src_nt_position_) p /\ hget h_hieroRule_trg_words_ p = hget (old h_hieroRule_trg_words_) p /\ hget h_hieroRule_trg_index_ p = hget (old h_hieroRule_trg_index_) p /\ hget h_hieroRule_trg_nt_position_ p = hget (old h_hieroRule_trg_nt_position_) p /\ hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
invariant { nt_ok (hget h_hieroRule_src_words_ target) (hget h_hieroRule_src_nt_position_ target) /\ nt_ok (hget h_hieroRule_trg_words_ target) (hget h_hieroRule_trg_nt_position_ target) }
variant { p2 pair_span + 1 - i }
@loop 2
invariant { hget h_hieroRule_alignments_ target = hget (h_hieroRule_alignments_ at L2) target ++ kp i align[i] $i }
invariant { forall p. p <> target -> hget h_hieroRule_alignments_ p = hget (old h_hieroRule_alignments_) p }
@ghost loop 1 end
assert { let n = i - p1 pair_span in n >= 0 /\ i + 1 - p1 pair_span = n + 1 };
@prelude2
predicate shifted (al l0: seq (pair int int)) (w ix v jx: seq int) = length al = length l0 /\ (forall m i. 0 <= m < length al -> 0 <= i < length w -> w[i] >= 0 -> ix[i] = p1 l0[m] -> p1 al[m] = nterm w i) /\ (forall m i. 0 <= m < length al -> 0 <= i < length v -> v[i] >= 0 -> jx[i] = p2 l0[m] -> p2 al[m] = nterm v i)
function wid (s: pair int int) : int = p2 s + 1 - p1 s
predicate inspan (s: pair int int) (n: int) = 0 <= p1 s <= p2 s < n
predicate words (s: seq int) = forall k. 0 <= k < length s -> s[k] >= 0
predicate rule_is (w: seq int) (ix: seq int) (nt: fset int) (s: seq int) (a c sp: pair int int) (n: int) = w = emit s a c (p1 sp) (wid sp) /\ ix = emiti a c (p1 sp) (wid sp) /\ nt_ok w nt /\ length (fs_keys nt) = n
let lemma emit_uniq (w: seq int) (a c sp: pair int int) requires { inspan sp (length w) /\ words w } ensures { uniq (emit w a c (p1 sp) (wid sp)) (emiti a c (p1 sp) (wid sp)) }
= emit_len w a c (p1 sp) (wid sp)
@fn travatar::HieroExtractor::ParseLexicalTranslationRule as parse0
requires { inspan (p1 my_pair) (length source) /\ inspan (p2 my_pair) (length target) /\ words source /\ words target /\ p2 (p1 my_pair) < length align }

ensures { result > 0 }
ensures { rule_is (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_src_nt_position_ result) source (mkp 1 0) (mkp 1 0) (p1 my_pair) 0 }
ensures { rule_is (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) (hget h_hieroRule_trg_nt_position_ result) target (mkp 1 0) (mkp 1 0) (p2 my_pair) 0 }
ensures { shifted (hget h_hieroRule_alignments_ result) (emita align (mkp 1 0) (mkp 1 0) (p1 (p1 my_pair)) (wid (p1 my_pair))) (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) }
@loop 1
invariant { p1 (p1 my_pair) <= i <= p2 (p1 my_pair) + 1 }
invariant { hget h_hieroRule_src_words_ rule = emit source (mkp 1 0) (mkp 1 0) (p1 (p1 my_pair)) (i - p1 (p1 my_pair)) /\ hget h_hieroRule_src_index_ rule = emiti (mkp 1 0) (mkp 1 0) (p1 (p1 my_pair)) (i - p1 (p1 my_pair)) }
invariant { hget h_hieroRule_alignments_ rule = emita align (mkp 1 0) (mkp 1 0) (p1 (p1 my_pair)) (i - p1 (p1 my_pair)) }
invariant { nt_ok (hget h_hieroRule_src_words_ rule) (hget h_hieroRule_src_nt_position_ rule) /\ length (fs_keys (hget h_hieroRule_src_nt_position_ rule)) = 0 }
invariant { hget h_hieroRule_trg_words_ rule = (empty: seq int) /\ hget h_hieroRule_trg_index_ rule = (empty: seq int) /\ hget h_hieroRule_trg_nt_position_ rule = (fs_empty: fset int) /\ hget h_hieroRule_type_ rule = 0 }
variant { p2 (p1 my_pair) + 1 - i }
@loop 2
invariant { hget h_hieroRule_alignments_ rule = hget (h_hieroRule_alignments_ at L2) rule ++ kp i align[i] $i }
@ghost loop 1 end
assert { let n = i - p1 (p1 my_pair) in n >= 0 /\ i + 1 - p1 (p1 my_pair) = n + 1 };
@loop 3
invariant { p1 (p2 my_pair) <= i <= p2 (p2 my_pair) + 1 }
invariant { hget h_hieroRule_trg_words_ rule = emit target (mkp 1 0) (mkp 1 0) (p1 (p2 my_pair)) (i - p1 (p2 my_pair)) /\ hget h_hieroRule_trg_index_ rule = emiti (mkp 1 0) (mkp 1 0) (p1 (p2 my_pair)) (i - p1 (p2 my_pair)) }
invariant { nt_ok (hget h_hieroRule_trg_words_ rule) (hget h_hieroRule_trg_nt_position_ rule) /\ length (fs_keys (hget h_hieroRule_trg_nt_position_ rule)) = 0 /\ hget h_hieroRule_type_ rule = 1 }
invariant { rule_is (hget h_hieroRule_src_words_ rule) (hget h_hieroRule_src_index_ rule) (hget h_hieroRule_src_nt_position_ rule) source (mkp 1 0) (mkp 1 0) (p1 my_pair) 0 }
variant { p2 (p2 my_pair) + 1 - i }
@ghost loop 3 end
assert { let n = i - p1 (p2 my_pair) in n >= 0 /\ i + 1 - p1 (p2 my_pair) = n + 1 };
@fn travatar::HieroExtractor::ParseUnaryPhraseRule as parse_un
requires { inspan (p1 pair_span) (length source) /\ inspan (p2 pair_span) (length target) /\ words source /\ words target /\ p2 (p1 pair_span) < length align }
requires { inside my_pair pair_span /\ p1 (p1 my_pair) <= p2 (p1 my_pair) /\ p1 (p2 my_pair) <= p2 (p2 my_pair) }
ensures { result > 0 }
ensures { rule_is (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_src_nt_position_ result) source (p1 my_pair) (mkp 1 0) (p1 pair_span) 1 }
ensures { rule_is (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) (hget h_hieroRule_trg_nt_position_ result) target (p2 my_pair) (mkp 1 0) (p2 pair_span) 1 }
ensures { shifted (hget h_hieroRule_alignments_ result) (emita align (p1 my_pair) (mkp 1 0) (p1 (p1 pair_span)) (wid (p1 pair_span))) (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) }
@fn travatar::HieroExtractor::ParseBinaryPhraseRule as parse_bin
requires { inspan (p1 pair_span) (length source) /\ inspan (p2 pair_span) (length target) /\ words source /\ words target /\ p2 (p1 pair_span) < length align }
requires { inside pair1 pair_span /\ p1 (p1 pair1) <= p2 (p1 pair1) /\ p1 (p2 pair1) <= p2 (p2 pair1) }
requires { inside pair2 pair_span /\ p1 (p1 pair2) <= p2 (p1 pair2) /\ p1 (p2 pair2) <= p2 (p2 pair2) }
requires { (p2 (p1 pair1) < p1 (p1 pair2) \/ p2 (p1 pair2) < p1 (p1 pair1)) /\ (p2 (p2 pair1) < p1 (p2 pair2) \/ p2 (p2 pair2) < p1 (p2 pair1)) }
ensures { result > 0 }
ensures { rule_is (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_src_nt_position_ result) source (p1 pair1) (p1 pair2) (p1 pair_span) 2 }
ensures { rule_is (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) (hget h_hieroRule_trg_nt_position_ result) target (p2 pair1) (p2 pair2) (p2 pair_span) 2 }
ensures { shifted (hget h_hieroRule_alignments_ result) (emita align (p1 pair1) (p1 pair2) (p1 (p1 pair_span)) (wid (p1 pair_span))) (hget h_hieroRule_src_words_ result) (hget h_hieroRule_src_index_ result) (hget h_hieroRule_trg_words_ result) (hget h_hieroRule_trg_index_ result) }
