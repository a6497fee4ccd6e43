---------------------------- MODULE CursorModel -----------------------------
(***************************************************************************)
(* Global cursors implemented as (segment, position) pairs, as the library *)
(* does, refine flat positions: incrementing skips empty segments, the     *)
(* past-the-end position is unique. Checked for every arrangement of       *)
(* segment lengths within the bounds. Also: the laws of random access      *)
(* follow from Answer.                                                     *)
(***************************************************************************)
EXTENDS Cursor, FiniteSets, TLC
CONSTANTS NSeg, MaxLen
VARIABLES L, s, k      \* lengths; current segment (NSeg+1: end) and position
vars == <<L, s, k>>

RECURSIVE Sum(_, _)
Sum(l, m) == IF m = 0 THEN 0 ELSE l[m] + Sum(l, m - 1)
Total == Sum(L, NSeg)

(* first position of the first nonempty segment from m on *)
RECURSIVE Settle(_, _)
Settle(l, m) == IF m > NSeg THEN <<NSeg + 1, 0>>
                ELSE IF l[m] > 0 THEN <<m, 0>> ELSE Settle(l, m + 1)
Flat == IF s = NSeg + 1 THEN Total ELSE Sum(L, s - 1) + k

Init == /\ L \in [1..NSeg -> 0..MaxLen]
        /\ s = Settle(L, 1)[1] /\ k = 0
Incr == /\ s <= NSeg
        /\ L' = L
        /\ s' = IF k + 1 < L[s] THEN s ELSE Settle(L, s + 1)[1]
        /\ k' = IF k + 1 < L[s] THEN k + 1 ELSE 0
Next == Incr
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnElement == s <= NSeg => k < L[s]
Position  == Flat \in 0..Total
Steps     == [][Flat' = Answer("inc", Total, Flat, 0)[1]]_vars
Reaches   == <>(Flat = Total)
(* laws relating the answers *)
Laws ==
  \A n \in 0..MaxLen : \A p, q \in 0..n :
    /\ Answer("diff", n, p, q)[1] = -Answer("diff", n, q, p)[1]
    /\ Answer("add", n, q, Answer("diff", n, p, q)[1]) = At(n, p)
    /\ Answer("lt", n, p, q)[1] = Answer("gt", n, q, p)[1]
    /\ Answer("le", n, p, q)[1] = 1 - Answer("gt", n, p, q)[1]
    /\ (Answer("eq", n, p, q)[1] = 1) <=> (At(n, p) = At(n, q))
    /\ p < n => Answer("idx", n, q, p - q) = Answer("der", n, p, 0)
=============================================================================
