@prelude
let rec ghost function esc (s: seq int) (n: int) : seq int requires { 0 <= n <= length s } variant { n }
= if n <= 0 then empty else if s[n-1] = 92 || s[n-1] = 34 then (esc s (n-1) ++ singleton 92) ++ singleton s[n-1] else esc s (n-1) ++ singleton s[n-1]
(* position after the first k white-space separated tokens, and the k-th token *)
let rec ghost function tokpos (s: seq int) (k: int) : int variant { k } = if k <= 0 then 0 else sp_tok s (sp_skip s (tokpos s (k-1)))
let rec lemma tokpos_range (s: seq int) (k: int) variant { k } ensures { 0 <= tokpos s k <= length s } = if k > 0 then tokpos_range s (k-1)
predicate has_tok (s: seq int) (k: int) = sp_skip s (tokpos s k) < length s
function tok (s: seq int) (k: int) : seq int = s[sp_skip s (tokpos s k) .. sp_tok s (sp_skip s (tokpos s k))]
let rec ghost function xml (s: seq int) (n: int) : seq int requires { 0 <= n <= length s } variant { n }
= if n <= 0 then empty else let p = xml s (n-1) in let c = s[n-1] in
  if c = 38 then p ++ s"&amp;" else if c = 34 then p ++ s"&quot;" else if c = 39 then p ++ s"&apos;" else if c = 60 then p ++ s"&lt;" else if c = 62 then p ++ s"&gt;" else p ++ seq_fill 1 c
(* v[0] d v[1] d ... v[n-1] d *)
let rec ghost function jd (v: seq (seq int)) (d: seq int) (n: int) : seq int requires { 0 <= n <= length v } variant { n } = if n <= 0 then empty else (jd v d (n-1) ++ v[n-1]) ++ d
let rec lemma jd_same (v w: seq (seq int)) (d: seq int) (n: int) requires { 0 <= n <= length v /\ n <= length w /\ (forall i. 0 <= i < n -> v[i] = w[i]) } variant { n } ensures { jd v d n = jd w d n } = if n > 0 then jd_same v w d (n-1)
