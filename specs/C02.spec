@files src/lib/dict.cc
@ignorefield travatar::SymbolSet::mutex_
@need type travatar::SymbolSet
@need global travatar::Dict::wids_
@include str.inc
@prelude2
(* the two directions of the table are inverse to each other *)
predicate symtab (s: symbolSet) (h: heap (seq int)) (lim: int) =
  0 < lim /\
  (forall i. 0 <= i < length (symbolSet_vocab_ s) -> 0 < (symbolSet_vocab_ s)[i] < lim /\ fm_mem (symbolSet_map_ s) (hget h (symbolSet_vocab_ s)[i]) /\ fm_val (symbolSet_map_ s) (hget h (symbolSet_vocab_ s)[i]) = i) /\
  (forall k. fm_mem (symbolSet_map_ s) k -> 0 <= fm_val (symbolSet_map_ s) k < length (symbolSet_vocab_ s) /\ hget h (symbolSet_vocab_ s)[fm_val (symbolSet_map_ s) k] = k)
function nsym (s: symbolSet) : int = length (symbolSet_vocab_ s)
function symof (s: symbolSet) (h: heap (seq int)) (i: int) : seq int = hget h (symbolSet_vocab_ s)[i]
function idof (s: symbolSet) (k: seq int) : int = if fm_mem (symbolSet_map_ s) k then fm_val (symbolSet_map_ s) k else -1
(* t extends s: nothing known is forgotten or renumbered *)
predicate extends (s: symbolSet) (h: heap (seq int)) (t: symbolSet) (h2: heap (seq int)) =
  nsym s <= nsym t /\ (forall i. 0 <= i < nsym s -> symof t h2 i = symof s h i) /\ (forall k. fm_mem (symbolSet_map_ s) k -> fm_mem (symbolSet_map_ t) k /\ fm_val (symbolSet_map_ t) k = fm_val (symbolSet_map_ s) k)
(* every id of the list is a known symbol / a known symbol or "none" *)
predicate known (s: symbolSet) (l: seq int) = forall i. 0 <= i < length l -> 0 <= l[i] < nsym s
predicate knownl (s: symbolSet) (l: seq int) = forall i. 0 <= i < length l -> -1 <= l[i] < nsym s
predicate knownc (s: symbolSet) (d: cfgData) = (forall i. 0 <= i < length (cfgData_words d) -> (cfgData_words d)[i] < nsym s) /\ knownl s (cfgData_syms d) /\ -1 <= cfgData_label d < nsym s
(* the words of ids[0..n) separated by one space *)
let rec ghost function pw (s: symbolSet) (h: heap (seq int)) (l: seq int) (n: int) : seq int requires { 0 <= n <= length l } variant { n }
= if n <= 0 then empty else if n = 1 then empty ++ symof s h l[0] else (pw s h l (n-1) ++ singleton 32) ++ symof s h l[n-1]
let rec ghost function pwv (s: symbolSet) (h: heap (seq int)) (l: seq cfgData) (n: int) : seq int requires { 0 <= n <= length l } variant { n }
= if n <= 0 then empty else if n = 1 then empty ++ pw s h (cfgData_words l[0]) (length (cfgData_words l[0])) else (pwv s h l (n-1) ++ s" |COL| ") ++ pw s h (cfgData_words l[n-1]) (length (cfgData_words l[n-1]))
(* annotated rule side: "word" for terminals, xN or xN:LABEL for non-terminals *)
function wa (s: symbolSet) (h: heap (seq int)) (id: int) (l: seq int) : seq int =
  if id < 0 then let k = -1 - id in if k < length l && l[k] <> -1 then (((empty ++ s"x") ++ itoa k) ++ s":") ++ symof s h l[k] else (empty ++ s"x") ++ itoa k
  else ((empty ++ singleton 34) ++ symof s h id) ++ singleton 34
let rec ghost function pa (s: symbolSet) (h: heap (seq int)) (d: cfgData) (n: int) : seq int requires { 0 <= n <= length (cfgData_words d) } variant { n }
= if n <= 0 then empty else if n = 1 then empty ++ wa s h (cfgData_words d)[0] (cfgData_syms d) else (pa s h d (n-1) ++ singleton 32) ++ wa s h (cfgData_words d)[n-1] (cfgData_syms d)
function pac (s: symbolSet) (h: heap (seq int)) (d: cfgData) : seq int =
  let w = pa s h d (length (cfgData_words d)) in if cfgData_label d <> -1 then (w ++ s" @ ") ++ symof s h (cfgData_label d) else w
let rec ghost function pav (s: symbolSet) (h: heap (seq int)) (l: seq cfgData) (n: int) : seq int requires { 0 <= n <= length l } variant { n }
= if n <= 0 then empty else if n = 1 then empty ++ pac s h l[0] else (pav s h l (n-1) ++ s" |COL| ") ++ pac s h l[n-1]
(* white-space separated tokens *)
predicate toks_are (s: symbolSet) (h: heap (seq int)) (t: seq int) (l: seq int) =
  forall i. 0 <= i < length l -> has_tok t i /\ symof s h l[i] = tok t i
(* printing words and splitting the text at white space gives the words back *)
predicate clean (t: seq int) = length t > 0 /\ (forall i. 0 <= i < length t -> not (space_char t[i]))
predicate prefix_of (a b: seq int) = length a <= length b /\ (forall i. 0 <= i < length a -> b[i] = a[i])
let rec lemma pw_prefix (s: symbolSet) (h: heap (seq int)) (l: seq int) (m n: int) requires { 0 <= m <= n <= length l } variant { n }
  ensures { prefix_of (pw s h l m) (pw s h l n) /\ (0 < m < n -> length (pw s h l m) < length (pw s h l n) /\ (pw s h l n)[length (pw s h l m)] = 32) }
= if m < n then pw_prefix s h l m (n-1)
let rec ghost pw_pos (s: symbolSet) (h: heap (seq int)) (l: seq int) (k: int) requires { 0 <= k <= length l /\ (forall i. 0 <= i < length l -> clean (symof s h l[i])) } variant { k }
  ensures { tokpos (pw s h l (length l)) k = length (pw s h l k) }
  ensures { k > 0 -> has_tok (pw s h l (length l)) (k-1) /\ tok (pw s h l (length l)) (k-1) = symof s h l[k-1] }
= if k > 0 then begin
    pw_pos s h l (k-1); pw_prefix s h l k (length l); pw_prefix s h l (k-1) (length l);
    let ghost t = pw s h l (length l) in let ghost p = length (pw s h l (k-1)) in let ghost q = length (pw s h l k) in
    let ghost b = if k = 1 then p else p + 1 in
    assert { q = b + length (symof s h l[k-1]) /\ (k > 1 -> t[p] = 32) };
    assert { forall i. b <= i < q -> (pw s h l k)[i] = (symof s h l[k-1])[i - b] };
    assert { forall i. b <= i < q -> t[i] = (symof s h l[k-1])[i - b] };
    assert { forall i. b <= i < q -> not (space_char t[i]) };
    assert { p < length t /\ not (space_char t[b]) };
    assert { sp_skip t p <= b by (sp_skip t p > b -> space_char t[b]) };
    assert { sp_skip t p < length t /\ not (space_char t[sp_skip t p]) };
    assert { sp_skip t p <> p \/ k = 1 };
    assert { sp_skip t p = b };
    assert { q < length t -> t[q] = 32 };
    assert { sp_tok t b = q };
    assert { t[b .. q] == symof s h l[k-1] }
  end
let lemma print_parse (s: symbolSet) (h: heap (seq int)) (l: seq int) requires { forall i. 0 <= i < length l -> clean (symof s h l[i]) }
  ensures { toks_are s h (pw s h l (length l)) l /\ not (has_tok (pw s h l (length l)) (length l)) }
= pw_pos s h l (length l);
  for i = 1 to length l do invariant { forall k. 0 <= k < i-1 -> has_tok (pw s h l (length l)) k /\ tok (pw s h l (length l)) k = symof s h l[k] } pw_pos s h l i done;
  assert { sp_skip (pw s h l (length l)) (length (pw s h l (length l))) = length (pw s h l (length l)) }
(* the i-th token of the text denotes the i-th word of a rule side *)
predicate aw_tok (s: symbolSet) (h: heap (seq int)) (t: seq int) (w: int) =
  if w >= 0 then length t > 2 /\ t[0] = 34 /\ t[length t - 1] = 34 /\ symof s h w = t[1 .. length t - 1]
  else exists e. 1 < e <= length t /\ t[0] = 120 /\ (forall i. 1 <= i < e -> 48 <= t[i] <= 57) /\ (e = length t \/ t[e] = 58) /\ w = -1 - str_to_int t[1 .. e]
predicate aw_ok (s: symbolSet) (h: heap (seq int)) (t: seq int) (l: seq int) = forall i. 0 <= i < length l -> has_tok t i /\ aw_tok s h (tok t i) l[i]
(* the pieces of a text split at " |COL| " *)
predicate colsplit (str: seq int) (c: seq (seq int)) = length c > 0 /\ (jd c s" |COL| " (length c - 1) ++ c[length c - 1]) = str /\ (forall i k. 0 <= i < length c -> not (occurs_at c[i] s" |COL| " k))
@fn travatar::SymbolSet<int>::GetIdSafe as ss_getIdSafe
requires { symtab this hv_seq_int nextptr }
ensures { symtab this hv_seq_int nextptr /\ extends (old this) (old hv_seq_int) this hv_seq_int }
ensures { if fm_mem (symbolSet_map_ (old this)) sym then result = fm_val (symbolSet_map_ (old this)) sym /\ this = old this
          else if add then result = nsym (old this) /\ nsym this = nsym (old this) + 1 /\ symof this hv_seq_int result = sym
          else result = -1 /\ this = old this }
@fn travatar::SymbolSet<int>::GetId sig=[(conststring&,bool)] as ss_getId
requires { symtab this hv_seq_int nextptr }
ensures { symtab this hv_seq_int nextptr /\ extends (old this) (old hv_seq_int) this hv_seq_int }
ensures { if fm_mem (symbolSet_map_ (old this)) sym then result = fm_val (symbolSet_map_ (old this)) sym /\ this = old this
          else if add then result = nsym (old this) /\ nsym this = nsym (old this) + 1 /\ symof this hv_seq_int result = sym
          else result = -1 /\ this = old this }
@fn travatar::SymbolSet<int>::GetSymbol as ss_getSymbol
requires { symtab this hv_seq_int nextptr /\ 0 <= id < nsym this }
ensures { result = symof this hv_seq_int id }
@fn travatar::Dict::WSym
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ 0 <= id < nsym g_Dict_wids_ }
ensures { result = symof g_Dict_wids_ hv_seq_int id }
@fn travatar::Dict::WID
requires { symtab g_Dict_wids_ hv_seq_int nextptr }
ensures { symtab g_Dict_wids_ hv_seq_int nextptr /\ extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
ensures { if fm_mem (symbolSet_map_ (old g_Dict_wids_)) str then result = fm_val (symbolSet_map_ (old g_Dict_wids_)) str /\ g_Dict_wids_ = old g_Dict_wids_
          else if g_Dict_add_ then result = nsym (old g_Dict_wids_) /\ nsym g_Dict_wids_ = nsym (old g_Dict_wids_) + 1 /\ symof g_Dict_wids_ hv_seq_int result = str
          else result = -1 /\ g_Dict_wids_ = old g_Dict_wids_ }
ensures { g_Dict_add_ -> result >= 0 /\ symof g_Dict_wids_ hv_seq_int result = str }
@fn travatar::Dict::EscapeString as escapeString
ensures { result = esc str (length str) }
@loop 1
invariant { 0 <= i <= length str /\ ret = esc str i }
variant { length str - i }
@fn travatar::Dict::EncodeXML as encodeXML
ensures { result = xml data (length data) }
@loop 1
invariant { 0 <= pos <= length data /\ buffer = xml data pos }
variant { length data - pos }
@fn travatar::Dict::PrintWords sig=[string(constvector<int>&)] as printWords
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ known g_Dict_wids_ ids }
ensures { result = pw g_Dict_wids_ hv_seq_int ids (length ids) }
@loop 1
invariant { 0 <= i <= length ids /\ oss = pw g_Dict_wids_ hv_seq_int ids i }
variant { length ids - i }
@fn travatar::Dict::PrintWords sig=[string(constvector<CfgData>&)] as printWordsV
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ (forall i. 0 <= i < length data -> known g_Dict_wids_ (cfgData_words data[i])) }
ensures { result = pwv g_Dict_wids_ hv_seq_int data (length data) }
@loop 1
invariant { 0 <= i <= length data /\ oss = pwv g_Dict_wids_ hv_seq_int data i }
variant { length data - i }
@fn travatar::Dict::WSymAnnotated as wsymAnnotated
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ id < nsym g_Dict_wids_ /\ knownl g_Dict_wids_ syms }
ensures { result = wa g_Dict_wids_ hv_seq_int id syms }
@fn travatar::Dict::PrintAnnotatedWords as printAnnotatedWords
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ knownc g_Dict_wids_ data }
ensures { result = pac g_Dict_wids_ hv_seq_int data }
@loop 1
invariant { 0 <= i <= length (cfgData_words data) /\ oss = pa g_Dict_wids_ hv_seq_int data i }
variant { length (cfgData_words data) - i }
@fn travatar::Dict::PrintAnnotatedVector as printAnnotatedVector
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ (forall i. 0 <= i < length data -> knownc g_Dict_wids_ data[i]) }
ensures { result = pav g_Dict_wids_ hv_seq_int data (length data) }
@loop 1
invariant { 0 <= i <= length data /\ oss = pav g_Dict_wids_ hv_seq_int data i }
variant { length data - i }
@fn travatar::Dict::ParseWords as parseWords
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ g_Dict_add_ }
ensures { symtab g_Dict_wids_ hv_seq_int nextptr /\ extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int /\ known g_Dict_wids_ result }
ensures { toks_are g_Dict_wids_ hv_seq_int str result /\ not (has_tok str (length result)) }
@loop 1
invariant { is_str iss = str /\ symtab g_Dict_wids_ hv_seq_int nextptr /\ extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int /\ known g_Dict_wids_ ret }
invariant { toks_are g_Dict_wids_ hv_seq_int str ret /\ is_ok iss /\ is_pos iss = tokpos str (length ret) }
variant { length str - is_pos iss }

@fn travatar::Dict::ParseAnnotatedWords as parseAnnotatedWords
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ g_Dict_add_ }
ensures { symtab g_Dict_wids_ hv_seq_int nextptr }
ensures { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
ensures { knownc g_Dict_wids_ result }
ensures { aw_ok g_Dict_wids_ hv_seq_int str (cfgData_words result) }
ensures { let n = length (cfgData_words result) in if cfgData_label result >= 0 then has_tok str n /\ tok str n = s"@" /\ has_tok str (n+1) /\ tok str (n+1) = symof g_Dict_wids_ hv_seq_int (cfgData_label result) /\ not (has_tok str (n+2)) else not (has_tok str n) }
@loop 1
invariant { is_str iss = str /\ symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
invariant { knownc g_Dict_wids_ data }
invariant { is_ok iss /\ is_pos iss = tokpos str (length (cfgData_words data)) /\ cfgData_label data = -1 }
invariant { aw_ok g_Dict_wids_ hv_seq_int str (cfgData_words data) }
variant { length str - is_pos iss }
@loop 2
invariant { 1 <= end /\ (end <= bs \/ end = 1) /\ (forall i. 1 <= i < end -> 48 <= buff[i] <= 57) }
variant { length buff - end }
@fn travatar::Tokenize sig=[vector<string>(conststring&,conststring&)] as tokenizeS
requires { length delim > 0 /\ length str + length delim < npos }
ensures { length result > 0 /\ (jd result delim (length result - 1) ++ result[length result - 1]) = str }
ensures { forall i k. 0 <= i < length result -> not (occurs_at result[i] delim k) }
@loop 1
invariant { 0 <= prev <= length str /\ jd vec delim (length vec) == str[0 .. prev] }
invariant { forall i k. 0 <= i < length vec -> not (occurs_at vec[i] delim k) }
variant { length str - prev }
@ghost loop 1 end
assert { jd vec delim (length vec) = (jd (vec at I1) delim (length (vec at I1)) ++ vec[length vec - 1]) ++ delim };
assert { forall i. 0 <= i < length delim -> str[loc + i] = delim[i] };
assert { forall k. occurs_at vec[length vec - 1] delim k -> occurs_at str delim ((prev at I1) + k) };
@ghost loop 1 after
assert { forall k. occurs_at (str[prev .. length str]) delim k -> occurs_at str delim (prev + k) };
@fn travatar::Dict::ParseWordVector as parseWordVector
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ g_Dict_add_ /\ length str + 7 < npos }
ensures { symtab g_Dict_wids_ hv_seq_int nextptr }
ensures { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
ensures { exists c. colsplit str c /\ length c = length result /\ forall i. 0 <= i < length c -> known g_Dict_wids_ result[i] /\ toks_are g_Dict_wids_ hv_seq_int c[i] result[i] /\ not (has_tok c[i] (length result[i])) }
@loop 1
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
invariant { colsplit str columns /\ length ret = length columns }
invariant { forall j. 0 <= j < i -> known g_Dict_wids_ ret[j] /\ not (has_tok columns[j] (length ret[j])) }
invariant { forall j. 0 <= j < i -> toks_are g_Dict_wids_ hv_seq_int columns[j] ret[j] }
variant { length columns - i }
@fn travatar::Dict::ParseAnnotatedVector as parseAnnotatedVector
requires { symtab g_Dict_wids_ hv_seq_int nextptr /\ g_Dict_add_ /\ length str + 7 < npos }
ensures { symtab g_Dict_wids_ hv_seq_int nextptr }
ensures { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
ensures { exists c. colsplit str c /\ length c = length result /\ forall i. 0 <= i < length c -> knownc g_Dict_wids_ result[i] /\ aw_ok g_Dict_wids_ hv_seq_int c[i] (cfgData_words result[i]) }
@loop 1
invariant { symtab g_Dict_wids_ hv_seq_int nextptr }
invariant { extends (old g_Dict_wids_) (old hv_seq_int) g_Dict_wids_ hv_seq_int }
invariant { colsplit str columns /\ length ret = length columns }
invariant { forall j. 0 <= j < i -> knownc g_Dict_wids_ ret[j] }
invariant { forall j. 0 <= j < i -> aw_ok g_Dict_wids_ hv_seq_int columns[j] (cfgData_words ret[j]) }
variant { length columns - i }
