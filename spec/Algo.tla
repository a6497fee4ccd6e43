-------------------------------- MODULE Algo --------------------------------
(***************************************************************************)
(* What the algorithms compute, defined on flat sequences of values.       *)
(* Positions are 0-based: x@i is s[i+1]. The outcome of an algorithm is a  *)
(* tuple of integers as recorded by harness/algo.cpp:                      *)
(*  - positions with respect to the beginning of the range (its length     *)
(*    stands for last), booleans as 0/1, counts;                           *)
(*  - for output: position of each element written (100+v for a value v    *)
(*    which is not an element), followed by 1000+number of elements        *)
(*    written;                                                             *)
(*  - number of applications of the predicate, where the standard bounds   *)
(*    it linearly.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

B(x) == IF x THEN 1 ELSE 0
Mn(x, y) == IF x < y THEN x ELSE y
Least(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
Greatest(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x >= y

(* unary and binary predicates of the harness *)
U(k, v) == CASE k = 0 -> v = 1 [] k = 1 -> v = 0 [] k = 2 -> TRUE [] OTHER -> FALSE
P2(k, v, w) == CASE k = 0 -> v = w [] k = 1 -> v <= w [] k = 2 -> v < w
                 [] OTHER -> TRUE

Idx(s) == 0 .. Len(s) - 1
Sat(s, k)   == {i \in Idx(s) : U(k, s[i + 1])}
Unsat(s, k) == {i \in Idx(s) : ~U(k, s[i + 1])}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == Least(S, 0) IN <<m>> \o Sorted(S \ {m})
Written(o) == o \o <<1000 + Len(o)>>
Upto(n) == [i \in 1..n |-> i - 1]

(* q matches s at position i under predicate k *)
MatchAt(s, q, k, i) ==
  /\ i + Len(q) <= Len(s)
  /\ \A j \in Idx(q) : P2(k, s[i + j + 1], q[j + 1])
Matches(s, q, k) == {i \in 0..Len(s) : MatchAt(s, q, k, i)}

Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Perm(s, q) == Len(s) = Len(q) /\
  \A v \in {s[i] : i \in DOMAIN s} \cup {q[i] : i \in DOMAIN q} :
    Count(s, v) = Count(q, v)

Mism(s, q, k) ==
  Least({i \in 0..Mn(Len(s), Len(q)) - 1 : ~P2(k, s[i + 1], q[i + 1])},
        Mn(Len(s), Len(q)))
Adj(s, k) == Least({i \in 0..Len(s) - 2 : P2(k, s[i + 1], s[i + 2])}, Len(s))
Partitioned(s, k) == \A i, j \in Idx(s) : i < j /\ U(k, s[j + 1]) => U(k, s[i + 1])
RunAt(s, m, v, k, i) ==
  i + m <= Len(s) /\ \A j \in 0..m - 1 : P2(k, s[i + j + 1], v)
SearchN(s, m, v, k) ==
  IF m <= 0 THEN 0 ELSE Least({i \in Idx(s) : RunAt(s, m, v, k, i)}, Len(s))
(* first of each run of elements equivalent to the first of the run *)
Heads(s, k) == {i \in Idx(s) : i = 0 \/ ~P2(k, s[i], s[i + 1])}
Subst(s, S, x) == [i \in 1..Len(s) |-> IF i - 1 \in S THEN 100 + x ELSE i - 1]

(* a result r together with a number of applications that has to be between
   lo and hi *)
Calls(o, r, lo, hi) == Len(o) = 2 /\ o[1] = r /\ lo <= o[2] /\ o[2] <= hi

(* selections of k out of n elements, encoded in binary, were obtained o[.]
   times each in N trials: all are possible and equally probable (to within
   six standard deviations), the rest do not occur *)
Bits == [b \in 0..15 |-> (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + (b \div 8)]
Uniform(k, N, n, o) ==
  LET S == {b \in 0..15 : Bits[b] = k}
      K == Cardinality(S)
  IN n = 4 /\ Len(o) = 16 /\
     \A b \in 0..15 :
       LET d == o[b + 1] * K - N IN
       IF b \in S THEN d * d <= 36 * N * K ELSE o[b + 1] = 0

(* the outcome o is the right one *)
Right(alg, p, s, q, o) ==
  LET n == Len(s) IN
  CASE alg = "all_of"  -> Calls(o, B(Unsat(s, p[1]) = {}), Mn(Least(Unsat(s, p[1]), n) + 1, n), n)
    [] alg = "any_of"  -> Calls(o, B(Sat(s, p[1]) # {}), Mn(Least(Sat(s, p[1]), n) + 1, n), n)
    [] alg = "none_of" -> Calls(o, B(Sat(s, p[1]) = {}), Mn(Least(Sat(s, p[1]), n) + 1, n), n)
    [] alg = "find_if" -> Calls(o, Least(Sat(s, p[1]), n), Mn(Least(Sat(s, p[1]), n) + 1, n), n)
    [] alg = "find_if_not" -> Calls(o, Least(Unsat(s, p[1]), n), Mn(Least(Unsat(s, p[1]), n) + 1, n), n)
    [] alg = "count_if" -> Calls(o, Cardinality(Sat(s, p[1])), n, n)
    [] alg = "is_partitioned"  -> o = <<B(Partitioned(s, p[1]))>>
    [] alg = "partition_point" -> o = <<Least(Unsat(s, p[1]), n)>>
    [] alg = "for_each"   -> o = Written(Upto(n))
    [] alg = "for_each_n" -> o = Written(Upto(p[1]))
    [] alg = "find"  -> o = <<Least({i \in Idx(s) : s[i + 1] = p[1]}, n)>>
    [] alg = "count" -> o = <<Count(s, p[1])>>
    [] alg = "search"   -> o = <<Least(Matches(s, q, 0), n)>>
    [] alg = "search_p" -> o = <<Least(Matches(s, q, p[1]), n)>>
    [] alg = "find_end" -> o = <<IF q = <<>> THEN n ELSE Greatest(Matches(s, q, 0), n)>>
    [] alg = "find_end_p" ->
         o = <<IF q = <<>> THEN n ELSE Greatest(Matches(s, q, p[1]), n)>>
    [] alg = "find_first_of" ->
         o = <<Least({i \in Idx(s) : \E j \in DOMAIN q : s[i + 1] = q[j]}, n)>>
    [] alg = "find_first_of_p" ->
         o = <<Least({i \in Idx(s) : \E j \in DOMAIN q : P2(p[1], s[i + 1], q[j])}, n)>>
    [] alg = "adjacent_find"   -> o = <<Adj(s, 0)>>
    [] alg = "adjacent_find_p" -> o = <<Adj(s, p[1])>>
    [] alg = "search_n"   -> o = <<SearchN(s, p[1], p[2], 0)>>
    [] alg = "search_n_p" -> o = <<SearchN(s, p[1], p[2], p[3])>>
    [] alg \in {"equal3", "equal4"} ->
         o = <<B((alg = "equal3" \/ Len(q) = n) /\ Mism(s, q, 0) = n), 0>>
    [] alg \in {"equal3_p", "equal4_p"} ->
         o = <<B((alg = "equal3_p" \/ Len(q) = n) /\ Mism(s, q, p[1]) = n), 0>>
    [] alg \in {"mismatch3", "mismatch4"} ->
         o = <<Mism(s, q, 0), Mism(s, q, 0), 0>>
    [] alg \in {"mismatch3_p", "mismatch4_p"} ->
         o = <<Mism(s, q, p[1]), Mism(s, q, p[1]), 0>>
    [] alg \in {"is_permutation3", "is_permutation3_p"} ->
         o = <<B(Perm(s, SubSeq(q, 1, n)))>>
    [] alg \in {"is_permutation4", "is_permutation4_p"} -> o = <<B(Perm(s, q))>>
    [] alg \in {"copy", "move"} -> p = <<>> /\ o = Written(Upto(n))
    [] alg = "copy_n" -> o = Written(Upto(IF p[1] < 0 THEN 0 ELSE p[1]))
    [] alg = "rotate_copy" ->
         o = Written([i \in 1..n |-> (i - 1 + p[1]) % n])
    [] alg = "copy_if"        -> o = Written(Sorted(Sat(s, p[1])))
    [] alg = "remove_copy_if" -> o = Written(Sorted(Unsat(s, p[1])))
    [] alg = "replace_copy_if" -> o = Written(Subst(s, Sat(s, p[1]), 5))
    [] alg = "partition_copy" ->
         o = Written(Sorted(Sat(s, p[1]))) \o Written(Sorted(Unsat(s, p[1])))
    [] alg = "transform1" -> o = Written([i \in 1..n |-> 100 + s[i] + 3])
    [] alg = "transform2" -> o = Written([i \in 1..n |-> 100 + s[i] * 4 + q[i]])
    [] alg = "remove_copy" ->
         o = Written(Sorted({i \in Idx(s) : s[i + 1] # p[1]}))
    [] alg = "replace_copy" ->
         o = Written(Subst(s, {i \in Idx(s) : s[i + 1] = p[1]}, 6))
    [] alg = "unique_copy"   -> o = Written(Sorted(Heads(s, 0)))
    [] alg = "unique_copy_p" -> o = Written(Sorted(Heads(s, p[1])))
    [] alg = "sample" ->
         LET m == Mn(p[1], n) IN
         /\ Len(o) = m + 1
         /\ o[m + 1] = 1000 + m
         /\ \A i \in 1..m : o[i] \in Idx(s)
         /\ \A i \in 1..m - 1 : o[i] < o[i + 1]
    [] alg = "sample_dist" -> Uniform(p[1], p[2], n, o)

(* c applications of the predicate, operation or equality operator are what
   the standard allows; exact numbers where it requires them *)
CallsOk(alg, p, s, q, c) ==
  LET n == Len(s)
      m == Len(q)
  IN
  CASE alg \in {"find", "is_partitioned", "search_n", "search_n_p"} -> c <= n
    [] alg \in {"adjacent_find", "adjacent_find_p"} ->
         c <= IF n = 0 THEN 0
              ELSE Mn(Adj(s, IF p = <<>> THEN 0 ELSE p[1]) + 1, n - 1)
    [] alg \in {"count", "copy_if", "remove_copy_if", "replace_copy_if",
                "remove_copy", "replace_copy", "partition_copy",
                "transform1", "transform2"} -> c = n
    [] alg \in {"unique_copy", "unique_copy_p"} -> c = IF n = 0 THEN 0 ELSE n - 1
    [] alg \in {"search", "search_p", "find_first_of", "find_first_of_p"} -> c <= n * m
    [] alg \in {"find_end", "find_end_p"} ->
         c <= n * m     \* the standard's m*(n-m+1) is not met by std::find_end
    [] alg \in {"mismatch3", "mismatch4", "mismatch3_p", "mismatch4_p",
                "equal3", "equal4", "equal3_p", "equal4_p"} -> c <= Mn(n, m)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Restitution: an element of type et is passed as its own type iff the    *)
(* type was requested, as the collection's value type (-1) otherwise, and  *)
(* is const iff the range is.                                              *)
Restituted(ts, et) == IF \E i \in DOMAIN ts : ts[i] = et THEN et ELSE -1
RightType(r) == r.rt = Restituted(r.ts, r.et) /\ r.c = r.cst
=============================================================================
