@prelude
(* sum of the values stored under k among the first n entries *)
let rec ghost function sumk (s: sv) (k n: int) : real requires { 0 <= n <= length s } variant { n }
= if n <= 0 then 0.0 else if p1 s[n-1] = k then sumk s k (n-1) +. p2 s[n-1] else sumk s k (n-1)
let rec lemma sumk_pre (s t: sv) (k n: int)
  requires { 0 <= n <= length s /\ n <= length t /\ (forall i. 0 <= i < n -> s[i] = t[i]) } variant { n }
  ensures { sumk s k n = sumk t k n }
= if n > 0 then sumk_pre s t k (n-1)
let rec lemma occ_pre (x: pair int real) (s t: sv) (n: int)
  requires { 0 <= n <= length s /\ n <= length t /\ (forall i. 0 <= i < n -> s[i] = t[i]) } variant { n }
  ensures { occ x s 0 n = occ x t 0 n }
= if n > 0 then occ_pre x s t (n-1)
let rec lemma erase_occ (x: pair int real) (t: sv) (j n: int)
  requires { 0 <= j < n <= length t } variant { n }
  ensures { occ x (seq_erase t j) 0 (n-1) = occ x t 0 n - (if t[j] = x then 1 else 0) }
= if n - 1 > j then begin erase_occ x t j (n-1); assert { (seq_erase t j)[n-2] = t[n-1] } end
  else occ_pre x t (seq_erase t j) (n-1)
let rec lemma erase_sumk (t: sv) (k j n: int)
  requires { 0 <= j < n <= length t } variant { n }
  ensures { sumk (seq_erase t j) k (n-1) = sumk t k n -. (if p1 t[j] = k then p2 t[j] else 0.0) }
= if n - 1 > j then begin erase_sumk t k j (n-1); assert { (seq_erase t j)[n-2] = t[n-1] } end
  else sumk_pre t (seq_erase t j) k (n-1)
lemma erase_occ_all : forall x: pair int real, t: sv, j m: int [occ x (seq_erase t j) 0 m].
  0 <= j < length t -> m = length t - 1 -> occ x (seq_erase t j) 0 m = occ x t 0 (length t) - (if t[j] = x then 1 else 0)
lemma perm_last : forall s t: sv. perm s t -> length s > 0 -> exists j. 0 <= j < length t /\ t[j] = s[length s - 1]
let rec lemma sumk_perm (s t: sv) (k: int)
  requires { perm s t } variant { length s }
  ensures { sumk s k (length s) = sumk t k (length t) }
= let n = length s in
  if n > 0 then begin
    let x = s[n-1] in
    let j = any int ensures { 0 <= result < n /\ t[result] = x } in
    let s2 = seq_erase s (n-1) in let t2 = seq_erase t j in
    assert { forall y. occ y s2 0 (n-1) = occ y s 0 (length s) - (if y = x then 1 else 0) };
    assert { forall y. occ y t2 0 (n-1) = occ y t 0 (length t) - (if y = x then 1 else 0) };
    assert { forall y. occ y s2 0 (n-1) = occ y t2 0 (n-1) };
    assert { perm s2 t2 };
    sumk_perm s2 t2 k;
    erase_sumk t k j n; erase_sumk s k (n-1) n
  end
let rec lemma sumk_absent (s: sv) (k m n: int)
  requires { 0 <= m <= n <= length s /\ (forall i. m <= i < n -> p1 s[i] <> k) } variant { n }
  ensures { sumk s k n = sumk s k m }
= if n > m then sumk_absent s k m (n-1)

lemma sumk_step : forall s: sv, k n: int. 0 <= n < length s -> sumk s k (n+1) = (if p1 s[n] = k then sumk s k n +. p2 s[n] else sumk s k n)
let lemma sumk_set (s t: sv) (i: int) (k: int)
  requires { 0 <= i < length s /\ length t = length s /\ (forall j. 0 <= j < i -> t[j] = s[j]) }
  ensures { sumk t k (i+1) = sumk s k i +. (if p1 t[i] = k then p2 t[i] else 0.0) }
= sumk_pre s t k i
let lemma sumk_sorted (s: sv) (n k: int)
  requires { 0 <= n <= length s /\ (forall i j. 0 <= i < j < n -> p1 s[i] < p1 s[j]) }
  ensures { sumk s k n = (if kx s k < n then p2 s[kx s k] else 0.0) }
= if kx s k < n then begin sumk_absent s k 0 (kx s k); sumk_absent s k (kx s k + 1) n end else sumk_absent s k 0 n
