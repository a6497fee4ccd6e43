----------------------------- MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Validates the elementary steps recorded from the real code against Life *)
(* and, after each operation, that the objects in existence are exactly    *)
(* the elements of the collections, each in memory from the allocator of   *)
(* the collection it belongs to.                                           *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
Hdr == Log[1]
AlwaysEq   == (Hdr.alf \div 8) % 2 = 1
Tracked(t) == Hdr.ty[t + 1][5] = 1
CellId(t)  == Hdr.ty[t + 1][6]
Al(x)      == IF AlwaysEq THEN 0 ELSE x

VARIABLES i, L

On(st) == {c \in DOMAIN st : st[c].on = 1}
(* number of elements with cell type t in collections with allocator al *)
RECURSIVE SumSegs(_, _, _)
SumSegs(S, k, t) ==
  IF k = 0 THEN 0
  ELSE (IF Tracked(S[k].t) /\ CellId(S[k].t) = t THEN Len(S[k].e) ELSE 0) +
       SumSegs(S, k - 1, t)
RECURSIVE SumColls(_, _, _)
SumColls(st, C, t) ==
  IF C = {} THEN 0
  ELSE LET c == CHOOSE c \in C : TRUE IN
       SumSegs(st[c].S, Len(st[c].S), t) + SumColls(st, C \ {c}, t)

CellTypes(M, st) ==
  {M.cel[p][1] : p \in DOMAIN M.cel} \cup
  {CellId(st[c].S[k].t) : <<c, k>> \in
     {x \in On(st) \X (1..64) : x[2] \in DOMAIN st[x[1]].S /\ Tracked(st[x[1]].S[x[2]].t)}}

Boundary(M, st) ==
  LET als  == {Al(st[c].al) : c \in On(st)}
      held == {M.blk[b][1] : b \in DOMAIN M.blk} IN
       {q \in {"BlocksOwned"} : ~(held \subseteq als)}
  \cup {q \in {"ElementsAlive"} :
          ~ \A a \in als \cup held : \A t \in CellTypes(M, st) :
              Cardinality({p \in Stored(M) :
                             M.cel[p][1] = t /\ M.blk[M.cel[p][2]][1] = a})
              = SumColls(st, {c \in On(st) : Al(st[c].al) = a}, t)}

Init == i = 2 /\ L = Nothing

(* the steps leading to the first reset belong to another part of the log *)
Next ==
  /\ i <= Len(Log)
  /\ LET e == Log[i]
         r == IF i = 2 THEN [L |-> Nothing, bad |-> {}] ELSE Run(L, e.m, 1, {})
         V == r.bad \cup Boundary(r.L, e.st) IN
     /\ V # {} => PrintT(<<"VIOL", i, e.op, V>>)
     /\ L' = r.L
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)

Spec == Init /\ [][Next]_<<i, L>>
=============================================================================
