@files src/lib/sparse-map.cc
@include sparse.inc
@include sumk.inc
@prelude
(* inner product: sum over the entries of l *)
let rec ghost function dots (l r: sv) (n: int) : real requires { 0 <= n <= length l } variant { n }
= if n <= 0 then 0.0 else dots l r (n-1) +. p2 l[n-1] *. vg r (p1 l[n-1])
let rec lemma dots_rest (l r: sv) (m n: int)
  requires { 0 <= m <= n <= length l /\ (forall i. m <= i < n -> vg r (p1 l[i]) = 0.0) } variant { n }
  ensures { dots l r n = dots l r m }
= if n > m then dots_rest l r m (n-1)
let lemma dots_out (l r: sv) (m n: int)
  requires { 0 <= m <= n <= length l /\ (forall i j. m <= i < n -> 0 <= j < length r -> p1 r[j] < p1 l[i]) }
  ensures { dots l r n = dots l r m }
= assert { forall i. m <= i < n -> kx r (p1 l[i]) = length r }; dots_rest l r m n
(* inner product of maps and of a map with a vector: sums over the first n entries of the first *)
let rec ghost function dotm (l r: fmap int real) (n: int) : real requires { 0 <= n <= length (fm_keys l) } variant { n }
= if n <= 0 then 0.0 else if fm_mem r (fm_keys l)[n-1] then dotm l r (n-1) +. fm_val l (fm_keys l)[n-1] *. fm_val r (fm_keys l)[n-1] else dotm l r (n-1)
let rec ghost function dotvm (l: sv) (r: fmap int real) (n: int) : real requires { 0 <= n <= length l } variant { n }
= if n <= 0 then 0.0 else if fm_mem r (p1 l[n-1]) then dotvm l r (n-1) +. p2 l[n-1] *. fm_val r (p1 l[n-1]) else dotvm l r (n-1)
(* L1 norm: sum over the first n keys *)
let rec ghost function norm1 (l: fmap int real) (n: int) : real requires { 0 <= n <= length (fm_keys l) } variant { n }
= if n <= 0 then 0.0 else norm1 l (n-1) +. abs_real (mv l (fm_keys l)[n-1])
@prelude2

@fn travatar::SparseVector::Add
requires { sorted (sparseVector_impl_ this) }
ensures { sorted (sparseVector_impl_ this) }
ensures { forall q. vg (sparseVector_impl_ this) q = vg (sparseVector_impl_ (old this)) q +. (if q = k then v else 0.0) }
@loop 1
invariant { this = (this at Entry) /\ 0 <= b <= e <= length (sparseVector_impl_ this) }
invariant { forall i. 0 <= i < b -> p1 (sparseVector_impl_ this)[i] < k }
invariant { forall i. e <= i < length (sparseVector_impl_ this) -> p1 (sparseVector_impl_ this)[i] > k }
variant { e - b }

@fn travatar::operator+= sig=[SparseVector&(SparseVector&] as sv_addeq
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { sorted (sparseVector_impl_ lhs) /\ result = lhs }
ensures { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (old lhs)) k +. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { sorted (sparseVector_impl_ lhs) }
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (lhs at Entry)) k +. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr, length (sparseVector_impl_ lhs) - itl }

@fn travatar::operator-= sig=[SparseVector&(SparseVector&] as sv_subeq
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { sorted (sparseVector_impl_ lhs) /\ result = lhs }
ensures { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (old lhs)) k -. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { sorted (sparseVector_impl_ lhs) }
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (lhs at Entry)) k -. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr, length (sparseVector_impl_ lhs) - itl }
@loop 2
invariant { sorted (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ lhs) -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall k. vg (sparseVector_impl_ lhs) k = vg (sparseVector_impl_ (lhs at Entry)) k -. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr }

@fn travatar::operator+ sig=[SparseVector(constSparseVector] as sv_add
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { sorted (sparseVector_impl_ result) }
ensures { forall k. vg (sparseVector_impl_ result) k = vg (sparseVector_impl_ lhs) k +. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { sorted (sparseVector_impl_ ret) }
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ ret) -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ ret)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ ret) -> itl <= j < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ ret)[i] < p1 (sparseVector_impl_ lhs)[j] }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall i j. 0 <= i < itr -> itl <= j < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ rhs)[i] < p1 (sparseVector_impl_ lhs)[j] }
invariant { forall k. vg (sparseVector_impl_ ret) k = (if kx (sparseVector_impl_ lhs) k < itl then vg (sparseVector_impl_ lhs) k else 0.0) +. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr + length (sparseVector_impl_ lhs) - itl }

@fn travatar::operator- sig=[SparseVector(constSparseVector] as sv_sub
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { sorted (sparseVector_impl_ result) }
ensures { forall k. vg (sparseVector_impl_ result) k = vg (sparseVector_impl_ lhs) k -. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { sorted (sparseVector_impl_ ret) }
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ ret) -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ ret)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ ret) -> itl <= j < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ ret)[i] < p1 (sparseVector_impl_ lhs)[j] }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall i j. 0 <= i < itr -> itl <= j < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ rhs)[i] < p1 (sparseVector_impl_ lhs)[j] }
invariant { forall k. vg (sparseVector_impl_ ret) k = (if kx (sparseVector_impl_ lhs) k < itl then vg (sparseVector_impl_ lhs) k else 0.0) -. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr + length (sparseVector_impl_ lhs) - itl }
@loop 2
invariant { sorted (sparseVector_impl_ ret) }
invariant { itl = length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < length (sparseVector_impl_ ret) -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ ret)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall k. vg (sparseVector_impl_ ret) k = (vg (sparseVector_impl_ lhs) k) -. (if kx (sparseVector_impl_ rhs) k < itr then vg (sparseVector_impl_ rhs) k else 0.0) }
variant { length (sparseVector_impl_ rhs) - itr }

@fn travatar::operator* sig=[double(constSparseVector] as sv_dot
requires { sorted (sparseVector_impl_ lhs) /\ sorted (sparseVector_impl_ rhs) }
ensures { result = dots (sparseVector_impl_ lhs) (sparseVector_impl_ rhs) (length (sparseVector_impl_ lhs)) }
@loop 1
invariant { 0 <= itl <= length (sparseVector_impl_ lhs) /\ 0 <= itr <= length (sparseVector_impl_ rhs) }
invariant { forall i j. 0 <= i < itl -> itr <= j < length (sparseVector_impl_ rhs) -> p1 (sparseVector_impl_ lhs)[i] < p1 (sparseVector_impl_ rhs)[j] }
invariant { forall i j. 0 <= i < itr -> itl <= j < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ rhs)[i] < p1 (sparseVector_impl_ lhs)[j] }
invariant { ret = dots (sparseVector_impl_ lhs) (sparseVector_impl_ rhs) itl }
variant { length (sparseVector_impl_ rhs) - itr + length (sparseVector_impl_ lhs) - itl }

@fn travatar::operator* sig=[SparseVector(constSparseVector&,double] as sv_scale
ensures { length (sparseVector_impl_ result) = length (sparseVector_impl_ lhs) }
ensures { forall i. 0 <= i < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ result)[i] = p1 (sparseVector_impl_ lhs)[i] /\ p2 (sparseVector_impl_ result)[i] = p2 (sparseVector_impl_ lhs)[i] *. rhs }
@loop 1
invariant { length (sparseVector_impl_ ret) = length (sparseVector_impl_ lhs) }
invariant { forall i. 0 <= i < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ ret)[i] = p1 (sparseVector_impl_ lhs)[i] }
invariant { forall i. 0 <= i < $i -> p2 (sparseVector_impl_ ret)[i] = p2 (sparseVector_impl_ lhs)[i] *. rhs }
invariant { forall i. $i <= i < length (sparseVector_impl_ lhs) -> p2 (sparseVector_impl_ ret)[i] = p2 (sparseVector_impl_ lhs)[i] }

@fn travatar::operator== sig=[bool(constSparseVector] as sv_eq
ensures { result <-> (length (sparseVector_impl_ lhs) = length (sparseVector_impl_ rhs) /\ forall i. 0 <= i < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ lhs)[i] = p1 (sparseVector_impl_ rhs)[i] /\ abs_real (p2 (sparseVector_impl_ lhs)[i] -. p2 (sparseVector_impl_ rhs)[i]) <=. 1e-6) }
@loop 1
invariant { length (sparseVector_impl_ lhs) = length (sparseVector_impl_ rhs) /\ 0 <= i <= length (sparseVector_impl_ lhs) }
invariant { forall q. 0 <= q < i -> p1 (sparseVector_impl_ lhs)[q] = p1 (sparseVector_impl_ rhs)[q] /\ abs_real (p2 (sparseVector_impl_ lhs)[q] -. p2 (sparseVector_impl_ rhs)[q]) <=. 1e-6 }
variant { length (sparseVector_impl_ lhs) - i }
@fn travatar::operator!= sig=[bool(constSparseVector] as sv_ne
ensures { result <-> not (length (sparseVector_impl_ lhs) = length (sparseVector_impl_ rhs) /\ forall i. 0 <= i < length (sparseVector_impl_ lhs) -> p1 (sparseVector_impl_ lhs)[i] = p1 (sparseVector_impl_ rhs)[i] /\ abs_real (p2 (sparseVector_impl_ lhs)[i] -. p2 (sparseVector_impl_ rhs)[i]) <=. 1e-6) }

@fn travatar::SparseVector::SparseVector sig=[constvector] as sv_ctor
ensures { sorted (sparseVector_impl_ result) }
ensures { forall k. vg (sparseVector_impl_ result) k = sumk vec k (length vec) }
@loop 1
invariant { 0 <= itl < itr <= length (sparseVector_impl_ this) /\ length (sparseVector_impl_ this) = length (sparseVector_impl_ (this at L1)) }
invariant { forall i j. 0 <= i < j <= itl -> p1 (sparseVector_impl_ this)[i] < p1 (sparseVector_impl_ this)[j] }
invariant { p1 (sparseVector_impl_ this)[itl] = p1 (sparseVector_impl_ (this at L1))[itr - 1] }
invariant { forall i. itr <= i < length (sparseVector_impl_ this) -> (sparseVector_impl_ this)[i] = (sparseVector_impl_ (this at L1))[i] }
invariant { forall k. sumk (sparseVector_impl_ this) k (itl + 1) = sumk (sparseVector_impl_ (this at L1)) k itr }
invariant { forall i j. 0 <= i < j < length (sparseVector_impl_ (this at L1)) -> p1 (sparseVector_impl_ (this at L1))[i] <= p1 (sparseVector_impl_ (this at L1))[j] }
variant { length (sparseVector_impl_ this) - itr }
@ghost loop 1 end
assert { forall k. sumk (sparseVector_impl_ this) k itl = sumk (sparseVector_impl_ (this at I1)) k itl };
assert { forall k. sumk (sparseVector_impl_ (this at L1)) k itr = sumk (sparseVector_impl_ (this at L1)) k (itr at I1) +. (if p1 (sparseVector_impl_ (this at I1))[itr at I1] = k then p2 (sparseVector_impl_ (this at I1))[itr at I1] else 0.0) };
assert { forall k. sumk (sparseVector_impl_ this) k (itl + 1) = sumk (sparseVector_impl_ this) k itl +. (if p1 (sparseVector_impl_ this)[itl] = k then p2 (sparseVector_impl_ this)[itl] else 0.0) };
assert { forall k. sumk (sparseVector_impl_ (this at I1)) k ((itl at I1) + 1) = sumk (sparseVector_impl_ (this at I1)) k (itl at I1) +. (if p1 (sparseVector_impl_ (this at I1))[itl at I1] = k then p2 (sparseVector_impl_ (this at I1))[itl at I1] else 0.0) };
@ghost loop 1 after
assert { forall k. sumk (sparseVector_impl_ (this at L1)) k (length vec) = sumk vec k (length vec) };
assert { forall k. sumk (sparseVector_impl_ this) k (itl + 1) = sumk vec k (length vec) };
@ghost exit
assert { forall k. vg (sparseVector_impl_ this) k = sumk (sparseVector_impl_ this) k (length (sparseVector_impl_ this)) };

@fn travatar::SparseVector::ToMap
requires { sorted (sparseVector_impl_ this) }
ensures { forall k. mv result k = vg (sparseVector_impl_ this) k }
@loop 1
invariant { forall k. fm_mem ret k <-> kx (sparseVector_impl_ this) k < $i }
invariant { forall k. fm_mem ret k -> fm_val ret k = vg (sparseVector_impl_ this) k }

@fn travatar::operator+= sig=[umap<int,double>&(umap<int,double>&,constumap] as sm_addeq
ensures { result = lhs /\ forall k. mv lhs k = mv (old lhs) k +. mv rhs k }
@loop 1
invariant { forall k. mv lhs k = mv (lhs at Entry) k +. (if fm_idx rhs k < $i then mv rhs k else 0.0) }
@fn travatar::operator+= sig=[umap<int,double>&(umap<int,double>&,constSparseVector] as sm_addeqv
requires { sorted (sparseVector_impl_ rhs) }
ensures { result = lhs /\ forall k. mv lhs k = mv (old lhs) k +. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { forall k. mv lhs k = mv (lhs at Entry) k +. (if kx (sparseVector_impl_ rhs) k < $i then vg (sparseVector_impl_ rhs) k else 0.0) }

@fn travatar::operator-= sig=[umap<int,double>&(umap<int,double>&,constumap] as sm_subeq
ensures { result = lhs /\ forall k. mv lhs k = mv (old lhs) k -. mv rhs k }
@loop 1
invariant { forall k. mv lhs k = mv (lhs at Entry) k -. (if fm_idx rhs k < $i then mv rhs k else 0.0) }
@fn travatar::operator-= sig=[umap<int,double>&(umap<int,double>&,constSparseVector] as sm_subeqv
requires { sorted (sparseVector_impl_ rhs) }
ensures { result = lhs /\ forall k. mv lhs k = mv (old lhs) k -. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { forall k. mv lhs k = mv (lhs at Entry) k -. (if kx (sparseVector_impl_ rhs) k < $i then vg (sparseVector_impl_ rhs) k else 0.0) }

@fn travatar::operator+ sig=[umap<int,double>(constumap<int,double>&,constumap] as sm_add
ensures { forall k. mv result k = mv lhs k +. mv rhs k }
@loop 1
invariant { forall k. mv ret k = (if fm_idx rhs k < $i then mv rhs k else 0.0) }
@loop 2
invariant { forall k. mv ret k = mv rhs k +. (if fm_idx lhs k < $i then mv lhs k else 0.0) }
@fn travatar::operator+ sig=[umap<int,double>(constumap<int,double>&,constSparseVector] as sm_addv
requires { sorted (sparseVector_impl_ rhs) }
ensures { forall k. mv result k = mv lhs k +. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { forall k. mv ret k = mv lhs k +. (if kx (sparseVector_impl_ rhs) k < $i then vg (sparseVector_impl_ rhs) k else 0.0) }

@fn travatar::operator- sig=[umap<int,double>(constumap<int,double>&,constumap] as sm_sub
ensures { forall k. mv result k = mv lhs k -. mv rhs k }
@loop 1
invariant { forall k. mv ret k = (if fm_idx lhs k < $i then mv lhs k else 0.0) }
@loop 2
invariant { forall k. mv ret k = mv lhs k -. (if fm_idx rhs k < $i then mv rhs k else 0.0) }
@fn travatar::operator- sig=[umap<int,double>(constumap<int,double>&,constSparseVector] as sm_subv
requires { sorted (sparseVector_impl_ rhs) }
ensures { forall k. mv result k = mv lhs k -. vg (sparseVector_impl_ rhs) k }
@loop 1
invariant { forall k. mv ret k = mv lhs k -. (if kx (sparseVector_impl_ rhs) k < $i then vg (sparseVector_impl_ rhs) k else 0.0) }

@fn travatar::operator* sig=[double(constumap<int,double>&,constumap] as sm_dot
ensures { result = (if length (fm_keys lhs) <= length (fm_keys rhs) then dotm lhs rhs (length (fm_keys lhs)) else dotm rhs lhs (length (fm_keys rhs))) }
@loop 1
invariant { ret = dotm lhs rhs $i }
@loop 2
invariant { ret = dotm rhs lhs $i }
@fn travatar::operator* sig=[double(constumap<int,double>&,constSparseVector] as sm_dotv
ensures { result = dotvm (sparseVector_impl_ rhs) lhs (length (sparseVector_impl_ rhs)) }
@loop 1
invariant { ret = dotvm (sparseVector_impl_ rhs) lhs $i }
@fn travatar::operator* sig=[umap<int,double>(constumap<int,double>&,double] as sm_scale
ensures { forall k. mv result k = mv lhs k *. rhs }
@loop 1
invariant { forall k. fm_mem ret k <-> fm_idx lhs k < $i }
invariant { forall k. mv ret k = if fm_idx lhs k < $i then mv lhs k *. rhs else 0.0 }
@fn travatar::operator== sig=[bool(constumap] as sm_eq
ensures { result <-> (length (fm_keys lhs) = length (fm_keys rhs) /\ forall k. fm_mem lhs k -> fm_mem rhs k /\ abs_real (fm_val rhs k -. fm_val lhs k) <=. 1e-6) }
@loop 1
invariant { length (fm_keys lhs) = length (fm_keys rhs) }
invariant { forall k. fm_mem lhs k -> fm_idx lhs k < $i -> fm_mem rhs k /\ abs_real (fm_val rhs k -. fm_val lhs k) <=. 1e-6 }
@fn travatar::operator!= sig=[bool(constumap] as sm_ne
ensures { result <-> not (length (fm_keys lhs) = length (fm_keys rhs) /\ forall k. fm_mem lhs k -> fm_mem rhs k /\ abs_real (fm_val rhs k -. fm_val lhs k) <=. 1e-6) }
@fn travatar::NormalizeL1
ensures { let n = norm1 (old weights) (length (fm_keys (old weights))) in
   (n = 0.0 -> weights = old weights) /\ (n <> 0.0 -> forall k. (fm_mem weights k <-> fm_mem (old weights) k) /\ (fm_mem weights k -> fm_val weights k = fm_val (old weights) k *. (quo denom n))) }
@loop 1
invariant { curr = norm1 weights $i }
@loop 2
invariant { fm_keys weights = fm_keys (weights at L2) /\ forall k. fm_mem weights k <-> fm_mem (weights at L2) k }
invariant { forall k. fm_mem weights k -> fm_idx weights k < $i -> fm_val weights k = fm_val (weights at L2) k *. denom }
invariant { forall k. fm_mem weights k -> fm_idx weights k >= $i -> fm_val weights k = fm_val (weights at L2) k }
