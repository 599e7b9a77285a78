@prelude
type sv = seq (pair int real)
predicate sorted (s: sv) = forall i j. 0 <= i < j < length s -> p1 s[i] < p1 s[j]
(* index of the first entry with key k, or the length *)
function kx (s: sv) (k: int) : int
axiom kx_def : forall s k [kx s k]. 0 <= kx s k <= length s /\ (kx s k < length s -> p1 s[kx s k] = k)
axiom kx_first : forall s: sv, k i: int [kx s k, s[i]]. 0 <= i < kx s k -> p1 s[i] <> k
(* the value a vector gives to a key *)
function vg (s: sv) (k: int) : real = if kx s k < length s then p2 s[kx s k] else 0.0
(* the value a map gives to a key *)
function mv (m: fmap int real) (k: int) : real = if fm_mem m k then fm_val m k else 0.0
lemma kx_here : forall s: sv, i: int [sorted s, s[i]]. sorted s -> 0 <= i < length s -> kx s (p1 s[i]) = i
lemma vg_here : forall s: sv, i: int [sorted s, s[i]]. sorted s -> 0 <= i < length s -> vg s (p1 s[i]) = p2 s[i]
lemma vg_is : forall s: sv, i k: int. sorted s -> 0 <= i < length s -> p1 s[i] = k -> vg s k = p2 s[i]
lemma vg_absent : forall s k. (forall i. 0 <= i < length s -> p1 s[i] <> k) -> vg s k = 0.0
lemma sorted_set : forall s i v. sorted s -> 0 <= i < length s -> sorted (set s i (mkp (p1 s[i]) v))
let lemma vg_set (s: sv) (i: int) (v: real) (k: int)
  requires { sorted s /\ 0 <= i < length s }
  ensures { vg (set s i (mkp (p1 s[i]) v)) k = if k = p1 s[i] then v else vg s k }
  ensures { kx (set s i (mkp (p1 s[i]) v)) k = kx s k }
= let ghost t = set s i (mkp (p1 s[i]) v) in
  assert { forall j. 0 <= j < length s -> p1 t[j] = p1 s[j] };
  assert { sorted t };
  assert { kx s k < length s -> p1 t[kx s k] = k };
  assert { kx t k < length t -> p1 s[kx t k] = k }
let lemma vg_ins (s: sv) (p: int) (x: pair int real) (k: int)
  requires { sorted s /\ 0 <= p <= length s /\ (forall i. 0 <= i < p -> p1 s[i] < p1 x) /\ (forall i. p <= i < length s -> p1 x < p1 s[i]) }
  ensures { sorted (seq_insert s p x) }
  ensures { vg (seq_insert s p x) k = if k = p1 x then p2 x else vg s k }
= let ghost t = seq_insert s p x in
  assert { t[p] = x };
  assert { sorted t };
  assert { kx s k < p -> t[kx s k] = s[kx s k] };
  assert { p <= kx s k < length s -> t[kx s k + 1] = s[kx s k] };
  assert { kx t k < p -> t[kx t k] = s[kx t k] };
  assert { p < kx t k < length t -> t[kx t k] = s[kx t k - 1] }
let lemma vg_snoc (s: sv) (x: pair int real) (k: int)
  requires { sorted s /\ (forall i. 0 <= i < length s -> p1 s[i] < p1 x) }
  ensures { sorted (snoc s x) }
  ensures { vg (snoc s x) k = if k = p1 x then p2 x else vg s k }
= let ghost t = snoc s x in
  assert { t[length s] = x };
  assert { sorted t };
  assert { kx s k < length s -> t[kx s k] = s[kx s k] };
  assert { kx t k < length s -> t[kx t k] = s[kx t k] }
let lemma vg_insseq (s t: sv) (p: int) (k: int)
  requires { sorted s /\ sorted t /\ p = length s /\ (forall i j. 0 <= i < length s -> 0 <= j < length t -> p1 s[i] < p1 t[j]) }
  ensures { sorted (seq_insert_seq s p t) }
  ensures { vg (seq_insert_seq s p t) k = vg s k +. vg t k }
= let ghost u = seq_insert_seq s p t in
  assert { forall i. 0 <= i < length s -> u[i] = s[i] };
  assert { forall i. 0 <= i < length t -> u[length s + i] = t[i] };
  assert { sorted u };
  assert { kx s k < length s -> u[kx s k] = s[kx s k] };
  assert { kx t k < length t -> u[length s + kx t k] = t[kx t k] };
  assert { kx s k < length s -> kx t k < length t -> false };
  assert { kx u k < length s -> u[kx u k] = s[kx u k] };
  assert { length s <= kx u k < length u -> u[kx u k] = t[kx u k - length s] }
let lemma vg_slice (s: sv) (i: int) (k: int)
  requires { sorted s /\ 0 <= i <= length s }
  ensures { sorted (s[i .. length s]) }
  ensures { vg (s[i .. length s]) k = if kx s k >= i then vg s k else 0.0 }
= let ghost t = s[i .. length s] in
  assert { sorted t };
  assert { i <= kx s k < length s -> t[kx s k - i] = s[kx s k] };
  assert { kx t k < length t -> t[kx t k] = s[kx t k + i] }
