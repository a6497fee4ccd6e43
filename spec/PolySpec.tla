------------------------------ MODULE PolySpec ------------------------------
(***************************************************************************)
(* Abstract specification of a polymorphic collection.                     *)
(*                                                                         *)
(* The state is a sequence of collections ("slots"). A collection is a     *)
(* record                                                                  *)
(*   on  1 iff the object exists                                           *)
(*   al  identity of its allocator                                         *)
(*   S   sequence, in traversal order, of segments; a segment is           *)
(*         t   type of its elements                                        *)
(*         e   sequence of element values                                  *)
(*         cap capacity                                                    *)
(*         a   sequence of element identities (addresses)                  *)
(*   n, em, g, vd   observations: size(), empty(), the identities met by a *)
(*         global traversal, and the discrepancies found when the same     *)
(*         elements are reached through every other access path.           *)
(*                                                                         *)
(* A transition is an operation e with arguments e.a, outcome e.x          *)
(* (exception or ""), result e.r, and a pre and a post state. The module   *)
(* defines, operation by operation, what the post state and the outcome    *)
(* are allowed to be. The predicates are grouped in named clauses, and     *)
(* ClausesOf maps each verified property to its clauses. The same clauses  *)
(* are checked on PolyModel (exhaustively, on a model shaped after the     *)
(* implementation) and on PolyTrace (on executions of the real code).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Copyable(_),      \* type can be copied
  Comparable(_),    \* type has ==
  NothrowMove(_),   \* moving an element does not throw
  Tracked(_),       \* lifetime of the type's objects is accounted for
  SelfType(_),      \* the collection's value type is itself this type
  Pocca, Pocma, Pocs, AlwaysEq, Soccc,  \* allocator traits
  MaxSize           \* maximum size of segments, 0 if out of reach

-----------------------------------------------------------------------------
(* Sequences *)

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
RemoveRange(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
Range(s) == {s[i] : i \in DOMAIN s}
Prefix(s, n) == SubSeq(s, 1, Min(n, Len(s)))

RECURSIVE SumLen(_, _)
SumLen(S, k) == IF k = 0 THEN 0 ELSE Len(S[k].e) + SumLen(S, k - 1)

RECURSIVE ConcatA(_, _)
ConcatA(S, k) == IF k = 0 THEN <<>> ELSE ConcatA(S, k - 1) \o S[k].a

RECURSIVE ConcatE(_, _)
ConcatE(S, k) == IF k = 0 THEN <<>> ELSE ConcatE(S, k - 1) \o S[k].e

(* values, in order, of the elements of type t among the first k of src *)
RECURSIVE PickT(_, _, _)
PickT(src, k, t) ==
  IF k = 0 THEN <<>>
  ELSE IF src[k][1] = t THEN Append(PickT(src, k - 1, t), src[k][2])
       ELSE PickT(src, k - 1, t)

-----------------------------------------------------------------------------
(* Collections *)

TypesOf(C) == {C.S[i].t : i \in DOMAIN C.S}
Has(C, t)  == \E i \in DOMAIN C.S : C.S[i].t = t
Ix(C, t)   == CHOOSE i \in DOMAIN C.S : C.S[i].t = t
Vals(C, t) == IF Has(C, t) THEN C.S[Ix(C, t)].e ELSE <<>>
Addr(C, t) == IF Has(C, t) THEN C.S[Ix(C, t)].a ELSE <<>>
Cap(C, t)  == IF Has(C, t) THEN C.S[Ix(C, t)].cap ELSE 0
Sz(C, t)   == Len(Vals(C, t))
Total(C)   == SumLen(C.S, Len(C.S))
Offset(C, t) == SumLen(C.S, Ix(C, t) - 1)
FlatA(C)   == ConcatA(C.S, Len(C.S))
FlatE(C)   == ConcatE(C.S, Len(C.S))
Order(C)   == [i \in DOMAIN C.S |-> C.S[i].t]

SlotIds(st)  == DOMAIN st
At(st, c)    == st[c + 1]
OnSlots(st)  == {c \in DOMAIN st : st[c].on = 1}

(* same types, values and identities, in the same order *)
Same(C, D) == C.on = D.on /\ (C.on = 1 => C.al = D.al) /\ C.S = D.S
(* same registered types and same elements *)
SameVals(C, D) ==
  /\ TypesOf(C) = TypesOf(D)
  /\ \A t \in TypesOf(C) : Vals(C, t) = Vals(D, t)
(* same elements; registered types may differ in empty segments *)
SameElems(C, D) ==
  \A t \in TypesOf(C) \cup TypesOf(D) : Vals(C, t) = Vals(D, t)

-----------------------------------------------------------------------------
(* Operations: argument accessors. Positions are 0-based.                  *)
(*  ins   <<c,t,v,pf,ht,hi,poly,how,..>>     ali <<c,t,i,pf,ht,hi,0,how..>> *)
(*  insr  <<c,pf,ht,hi,reg,how,..>> + src     ctorr <<c,al,reg,how,..>> +src*)
(*  er, err <<c,t1,i1,t2,i2,form,..>> (t1=-1: positions in global order)    *)
(*  pf: 0 no position, 1 hint, 2 local position, 3 typed local position     *)
(*  how: 0 copies from the source, 1 moves, 2 constructs                    *)

Insertions == {"ins", "ali", "insr", "ctorr"}
Erasures   == {"er", "err", "clr", "clrt"}
CapOps     == {"res", "rest", "shr", "shrt"}
CopyOps    == {"cpc", "cpca", "cpa"}
MoveOps    == {"mvc", "mvca", "mva", "swp"}
SingleOps  == {"ins", "ali", "insr", "er", "err", "clr", "clrt", "res",
               "rest", "shr", "shrt", "reg", "qry"}
CtorOps    == {"new", "ctorr", "cpc", "cpca", "mvc", "mvca"}

NoColl == [on |-> 0, al |-> 0, n |-> 0, em |-> 1, S |-> <<>>, g |-> <<>>,
           vd |-> <<>>]

Before(e, pre) == IF e.op = "ctorr" THEN NoColl ELSE At(pre, e.a[1])
After(e, post) == At(post, e.a[1])

Src(e, pre) ==
  CASE e.op = "ins" -> << <<e.a[2], e.a[3]>> >>
    [] e.op = "ali" -> << <<e.a[2], Vals(At(pre, e.a[1]), e.a[2])[e.a[3] + 1]>> >>
    [] OTHER        -> e.src
Pf(e) == CASE e.op \in {"ins", "ali"} -> e.a[4]
           [] e.op = "insr" -> e.a[2]
           [] OTHER -> 0
Ht(e) == CASE e.op \in {"ins", "ali"} -> e.a[5]
           [] e.op = "insr" -> e.a[3]
           [] OTHER -> -1
Hi(e) == CASE e.op \in {"ins", "ali"} -> e.a[6]
           [] e.op = "insr" -> e.a[4]
           [] OTHER -> 0
How(e) == CASE e.op \in {"ins", "ali"} -> e.a[8]
            [] e.op = "insr" -> e.a[6]
            [] OTHER -> e.a[4]
(* the element's type has to be registered beforehand *)
NeedReg(e, t) ==
  /\ ~SelfType(t)
  /\ CASE e.op = "ins"   -> e.a[7] = 1
       [] e.op = "ali"   -> FALSE
       [] e.op = "insr"  -> e.a[5] = 0
       [] OTHER          -> e.a[3] = 0

(* documented failures of the k-th source element *)
FailsUnreg(e, pre, k) ==
  LET t == Src(e, pre)[k][1] IN
    NeedReg(e, t) /\ ~Has(Before(e, pre), t)
FailsNocopy(e, pre, k) ==
  How(e) = 0 /\ ~Copyable(Src(e, pre)[k][1])
Fails(e, pre, k) == FailsUnreg(e, pre, k) \/ FailsNocopy(e, pre, k)
FailAt(e, pre) ==
  LET F == {k \in DOMAIN Src(e, pre) : Fails(e, pre, k)} IN
    IF F = {} THEN 0 ELSE CHOOSE k \in F : \A j \in F : k <= j
(* first source element with no room left in its segment *)
LenAt(e, pre) ==
  IF MaxSize = 0 THEN 0
  ELSE LET S == Src(e, pre)
           F == {k \in DOMAIN S :
                   Sz(Before(e, pre), S[k][1]) + Len(PickT(S, k, S[k][1])) > MaxSize} IN
       IF F = {} THEN 0 ELSE CHOOSE k \in F : \A j \in F : k <= j
(* number of elements actually inserted, barring faults *)
NIns(e, pre) ==
  IF FailAt(e, pre) = 0 THEN Len(Src(e, pre)) ELSE FailAt(e, pre) - 1

(* insertion point in the segment of t *)
Pos(e, pre, t) ==
  LET n == Sz(Before(e, pre), t) IN
    IF Pf(e) # 0 /\ Ht(e) = t THEN Hi(e) ELSE n

SrcTypes(e, pre, k) == {Src(e, pre)[j][1] : j \in 1..k}

(* content of the segment of t once the first k elements are in *)
InsertedVals(e, pre, t, k) ==
  InsertAt(Vals(Before(e, pre), t), Pos(e, pre, t), PickT(Src(e, pre), k, t))

-----------------------------------------------------------------------------
(* Erasure *)

FlatRange(e) == e.a[2] = -1
(* [i,j) interval erased in the segment of t *)
EraseIv(e, C, t) ==
  CASE e.op = "clr"  -> <<0, Sz(C, t)>>
    [] e.op = "clrt" -> IF e.a[2] = t THEN <<0, Sz(C, t)>> ELSE <<0, 0>>
    [] FlatRange(e)  ->
         LET b == Offset(C, t)
             n == Sz(C, t)
             i == Max(0, Min(n, e.a[3] - b))
             j == Max(0, Min(n, e.a[5] - b)) IN <<i, Max(i, j)>>
    [] OTHER         -> IF e.a[2] = t THEN <<e.a[3], e.a[5]>> ELSE <<0, 0>>
ErasedVals(e, C, t) ==
  LET iv == EraseIv(e, C, t) IN RemoveRange(Vals(C, t), iv[1], iv[2])
(* flat position of the first erased element *)
EraseFlat(e, C) == IF FlatRange(e) THEN e.a[3] ELSE Offset(C, e.a[2]) + e.a[3]

-----------------------------------------------------------------------------
(* Outcome classes *)

Faulted(e)   == e.x \in {"fault", "badalloc"}
Ok(e)        == e.x = ""
Documented(e) == e.x \in {"unreg", "nocopy", "noeq", "len"}

(* operations naming a type that must be registered *)
NamedUnreg(e, pre) ==
  LET C == At(pre, e.a[1]) IN
  \/ e.op \in {"clrt", "shrt"} /\ ~Has(C, e.a[2])
  \/ e.op = "rest" /\ e.a[4] # 0 /\ ~Has(C, e.a[2])
  \/ e.op = "qry" /\ e.a[3] # 12 /\ ~Has(C, e.a[2])

NocopyTypes(C) == {t \in TypesOf(C) : ~Copyable(t) /\ Sz(C, t) > 0}
NoeqTypes(C, D) ==
  {t \in TypesOf(C) \cap TypesOf(D) :
     ~Comparable(t) /\ Sz(C, t) > 0 /\ Sz(D, t) > 0}
(* every type whose comparison needs no == agrees *)
EqSoFar(C, D) ==
  \A t \in TypesOf(C) \cup TypesOf(D) :
    IF t \in NoeqTypes(C, D) THEN Sz(C, t) = Sz(D, t)
    ELSE Vals(C, t) = Vals(D, t)

(* exactly the documented exceptions are thrown *)
OutcomeOk(e, pre) ==
  \/ Faulted(e) /\ e.fd = 1
  \/ CASE e.op \in Insertions ->
            LET k == FailAt(e, pre)
                j == LenAt(e, pre) IN
            IF k = 0 /\ j = 0 THEN Ok(e)
            ELSE \/ /\ j # 0 /\ e.x = "len"
                    /\ k # 0 => (~FailsUnreg(e, pre, k) \/ j < k)
                 \/ /\ k # 0
                    /\ (j # 0 /\ j < k) => e.op = "insr"
                    /\ e.x = (IF FailsUnreg(e, pre, k) THEN "unreg" ELSE "nocopy")
                    /\ e.xi = Src(e, pre)[k][1]
       [] e.op \in {"clrt", "shrt", "qry"} ->
            IF NamedUnreg(e, pre) THEN e.x = "unreg" /\ e.xi = e.a[2] ELSE Ok(e)
       [] e.op = "rest" ->
            IF NamedUnreg(e, pre) THEN e.x = "unreg" /\ e.xi = e.a[2]
            ELSE IF e.a[3] < 0 \/ (MaxSize # 0 /\ e.a[3] > MaxSize) THEN e.x = "len"
            ELSE Ok(e)
       [] e.op = "res" ->
            IF MaxSize # 0 /\ e.a[2] > MaxSize /\ TypesOf(At(pre, e.a[1])) # {}
            THEN e.x = "len" ELSE Ok(e)
       [] e.op \in CopyOps ->
            IF e.op = "cpa" /\ e.a[1] = e.a[2] THEN Ok(e)
            ELSE IF NocopyTypes(At(pre, e.a[2])) = {} THEN Ok(e)
            ELSE e.x = "nocopy" /\ e.xi \in NocopyTypes(At(pre, e.a[2]))
       [] e.op = "eq" ->
            LET C == At(pre, e.a[1])
                D == At(pre, e.a[2])
                N == NoeqTypes(C, D) IN
            IF N = {} THEN Ok(e)
            ELSE \/ e.x = "noeq" /\ e.xi \in N
                 \/ Ok(e) /\ ~EqSoFar(C, D)
       [] OTHER -> Ok(e)

-----------------------------------------------------------------------------
(* Clauses. Each is a predicate on (e, pre, post).                         *)

Touched(e) ==
  CASE e.op = "reset" -> {}
    [] e.op \in {"eq", "qry"} -> {}
    [] e.op \in {"cpc", "cpca", "cpa"} -> {e.a[1] + 1}
    [] e.op \in MoveOps -> {e.a[1] + 1, e.a[2] + 1}
    [] OTHER -> {e.a[1] + 1}

(* collections not named by the operation do not change in any way *)
Frame(e, pre, post) ==
  e.op # "reset" =>
    \A c \in DOMAIN pre : c \notin Touched(e) => Same(pre[c], post[c])

(* -- insertion -- *)

InsContent(e, pre, post) ==
  e.op \in Insertions /\ ~Faulted(e) =>
    LET C == Before(e, pre)
        D == After(e, post)
        k == NIns(e, pre) IN
    IF e.op = "ctorr" /\ ~Ok(e) THEN D.on = 0
    ELSE /\ D.on = 1
         /\ e.op # "ctorr" => D.al = C.al
         /\ IF e.x = "len"
            THEN \E m \in 0..(LenAt(e, pre) - 1) :
                   \A t \in TypesOf(C) \cup TypesOf(D) \cup SrcTypes(e, pre, Len(Src(e, pre))) :
                     Vals(D, t) = InsertedVals(e, pre, t, m)
            ELSE \A t \in TypesOf(C) \cup TypesOf(D) \cup SrcTypes(e, pre, k) :
              IF e.op = "insr" /\ e.x = "nocopy" /\ t = e.xi
              THEN (* bulk insertion: the usual basic guarantee of ranges *)
                   Range(Vals(D, t)) \subseteq
                     Range(Vals(C, t)) \cup {-1} \cup
                     Range(PickT(Src(e, pre), Len(Src(e, pre)), t))
              ELSE Vals(D, t) = InsertedVals(e, pre, t, k)

InsRegister(e, pre, post) ==
  e.op \in Insertions /\ ~Faulted(e) /\ At(post, e.a[1]).on = 1 =>
    LET C == Before(e, pre)
        D == After(e, post)
        k == NIns(e, pre)
        must == TypesOf(C) \cup SrcTypes(e, pre, k)
        f == FailAt(e, pre) IN
    IF e.x = "len"
    THEN /\ TypesOf(C) \subseteq TypesOf(D)
         /\ TypesOf(D) \subseteq TypesOf(C) \cup SrcTypes(e, pre, Len(Src(e, pre)))
    ELSE
    /\ must \subseteq TypesOf(D)
    /\ \A t \in TypesOf(D) \ must :
         /\ Sz(D, t) = 0
         /\ \/ f # 0 /\ t = Src(e, pre)[f][1] /\ ~FailsUnreg(e, pre, f)
            \/ Len(Src(e, pre)) = 0 /\ Cardinality(TypesOf(D) \ must) = 1
    /\ f # 0 /\ FailsUnreg(e, pre, f) => ~Has(D, Src(e, pre)[f][1])

(* returned iterators designate the (first) inserted element *)
InsResult(e, pre, post) ==
  e.op \in {"ins", "ali", "insr"} /\ Ok(e) =>
    LET D == After(e, post) IN
    IF e.op = "insr" /\ Pf(e) <= 1 THEN TRUE
    ELSE LET t == IF e.op = "insr" THEN Ht(e) ELSE e.a[2]
             p == Pos(e, pre, t)
             x == IF p < Sz(D, t) THEN Addr(D, t)[p + 1] ELSE 0 IN
         IF Pf(e) <= 1
         THEN e.r = <<0, Offset(D, t) + p, x>>
         ELSE e.r = <<Pf(e) - 1, p, x, t>>

(* sources are left alone when copied from, moved from when moved *)
InsSource(e, pre, post) ==
  e.op \in {"ins", "insr", "ctorr"} /\ Ok(e) /\ Len(e.sv) > 0 =>
    /\ Len(e.sv) = Len(Src(e, pre))
    /\ \A k \in DOMAIN e.sv :
         IF How(e) = 0 THEN e.sv[k] = Src(e, pre)[k][2] ELSE e.sv[k] = -1
(* a failed insertion by copy does not modify the source either, and neither
   does one by move that could not obtain memory or was not possible *)
InsSourceFail(e, pre, post) ==
  /\ e.op \in {"ins", "insr", "ctorr"} /\ ~Ok(e) /\ How(e) = 0 =>
       \A k \in DOMAIN e.sv : e.sv[k] = Src(e, pre)[k][2]
  \* moving insertion (form 9 is emplacement, whose arguments may be consumed)
  /\ e.op = "ins" /\ How(e) = 1 /\ (Len(e.a) < 9 \/ e.a[9] # 9) /\ e.x \in {"badalloc", "len", "unreg"} =>
       \A k \in DOMAIN e.sv : e.sv[k] = Src(e, pre)[k][2]

MovesOnly(C) ==
  \A t \in TypesOf(C) : Sz(C, t) > 0 => NothrowMove(t) \/ ~Copyable(t)

InsNoCopies(e, pre, post) ==
  e.op \in {"ins", "insr"} /\ Ok(e) /\ How(e) > 0 /\ MovesOnly(After(e, post)) =>
    e.nc = 0

(* -- erasure -- *)

EraseContent(e, pre, post) ==
  e.op \in Erasures /\ ~Faulted(e) =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    /\ D.on = 1 /\ D.al = C.al
    /\ TypesOf(D) = TypesOf(C)
    /\ IF Ok(e) THEN \A t \in TypesOf(C) : Vals(D, t) = ErasedVals(e, C, t)
                ELSE SameVals(C, D)

EraseResult(e, pre, post) ==
  e.op \in {"er", "err"} /\ Ok(e) =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1])
        t == e.a[2] IN
    IF e.a[6] = 0
    THEN LET p == EraseFlat(e, C) IN
         /\ e.r[1] = 0
         /\ e.r[2] = p
         /\ e.r[3] = IF p < Total(D) THEN FlatA(D)[p + 1] ELSE 0
    ELSE e.r = <<e.a[6], e.a[3],
                 IF e.a[3] < Sz(D, t) THEN Addr(D, t)[e.a[3] + 1] ELSE 0, t>>

EraseNoCopies(e, pre, post) ==
  e.op \in Erasures /\ Ok(e) /\ MovesOnly(At(pre, e.a[1])) => e.nc = 0

(* -- capacity -- *)

CapContent(e, pre, post) ==
  e.op \in CapOps /\ ~Faulted(e) =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    /\ D.on = 1 /\ D.al = C.al
    /\ SameElems(C, D)
    /\ TypesOf(C) \subseteq TypesOf(D)
    /\ TypesOf(D) \ TypesOf(C) \subseteq
         (IF e.op = "rest" /\ e.a[4] = 0 THEN {e.a[2]} ELSE {})
    /\ e.op = "rest" /\ Ok(e) => Has(D, e.a[2])

CapReserve(e, pre, post) ==
  /\ e.op = "res" /\ Ok(e) =>
       \A t \in TypesOf(At(post, e.a[1])) : Cap(At(post, e.a[1]), t) >= e.a[2]
  /\ e.op = "rest" /\ Ok(e) /\ e.a[3] >= 0 =>
       Cap(At(post, e.a[1]), e.a[2]) >= e.a[3]
  /\ e.op \in {"res", "rest"} /\ Ok(e) =>
       \A t \in TypesOf(At(pre, e.a[1])) :
         LET C == At(pre, e.a[1])
             D == At(post, e.a[1]) IN
         /\ Cap(D, t) >= Cap(C, t)
         /\ (e.op = "rest" /\ t # e.a[2]) \/ e.a[IF e.op = "res" THEN 2 ELSE 3] <= Cap(C, t) =>
              Cap(D, t) = Cap(C, t) /\ Addr(D, t) = Addr(C, t)

(* capacity is at least the size; it is used up before reallocating *)
CapSound(e, pre, post) ==
  /\ \A c \in OnSlots(post) : \A i \in DOMAIN post[c].S :
       post[c].S[i].cap >= Len(post[c].S[i].e)
  /\ e.op \in {"ins", "ali", "insr", "er", "err", "clr", "clrt"} /\ ~Faulted(e) =>
       \A t \in TypesOf(At(pre, e.a[1])) :
         LET C == At(pre, e.a[1])
             D == At(post, e.a[1]) IN
         /\ Cap(D, t) >= Cap(C, t)
         /\ Ok(e) /\ Sz(D, t) <= Cap(C, t) => Cap(D, t) = Cap(C, t)
  /\ e.op \in {"shr", "shrt"} =>
       \A t \in TypesOf(At(pre, e.a[1])) :
         Cap(At(post, e.a[1]), t) <= Cap(At(pre, e.a[1]), t)

CapNoCopies(e, pre, post) ==
  e.op \in CapOps /\ Ok(e) /\ MovesOnly(At(pre, e.a[1])) => e.nc = 0

(* -- queries and registration -- *)

Query(e, pre, post) ==
  e.op = "qry" /\ Ok(e) =>
    LET C == At(pre, e.a[1])
        t == e.a[2] IN
    CASE e.a[3] = 8  -> e.r[1] = IF Sz(C, t) = 0 THEN 1 ELSE 0
      [] e.a[3] = 9  -> e.r[1] = Sz(C, t)
      [] e.a[3] = 11 -> e.r[1] = Cap(C, t)
      [] e.a[3] = 12 -> e.r[1] = IF Has(C, t) THEN 1 ELSE 0
      [] OTHER -> TRUE

Register(e, pre, post) ==
  e.op = "reg" /\ Ok(e) =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    /\ TypesOf(D) = TypesOf(C) \cup {e.a[i] : i \in 2..Len(e.a)}
    /\ SameElems(C, D)
    /\ D.al = C.al

(* one segment per type; registration only grows, save for the operations
   that replace the contents of the collection *)
RegPersist(e, pre, post) ==
  /\ \A c \in OnSlots(post) : \A i, j \in DOMAIN post[c].S :
       i # j => post[c].S[i].t # post[c].S[j].t
  /\ e.op \in SingleOps \ {"qry"} =>
       TypesOf(At(pre, e.a[1])) \subseteq TypesOf(At(post, e.a[1]))

NewEmpty(e, pre, post) ==
  e.op = "new" /\ Ok(e) =>
    LET D == At(post, e.a[1]) IN D.on = 1 /\ D.al = e.a[2] /\ D.S = <<>>

(* -- copy -- *)

CopyContent(e, pre, post) ==
  e.op \in CopyOps /\ ~Faulted(e) =>
    LET X == At(pre, e.a[2])
        D == At(post, e.a[1]) IN
    IF Ok(e)
    THEN /\ D.on = 1
         /\ SameVals(X, D)
         /\ e.op = "cpa" /\ e.a[1] = e.a[2] => Same(X, D)
         (* no element is shared *)
         /\ e.a[1] # e.a[2] =>
              \A t \in TypesOf(X) : Range(Addr(D, t)) \cap Range(Addr(X, t)) = {}
    ELSE e.op # "cpa" => D.on = 0

CopySource(e, pre, post) ==
  e.op \in CopyOps /\ e.a[1] # e.a[2] => Same(At(pre, e.a[2]), At(post, e.a[2]))

(* -- move, swap -- *)

AlEq(x, y) == AlwaysEq \/ x = y
Steals(e, pre) ==
  CASE e.op = "mvc"  -> TRUE
    [] e.op = "mvca" -> AlEq(At(pre, e.a[2]).al, e.a[3])
    [] e.op = "mva"  -> Pocma \/ AlEq(At(pre, e.a[1]).al, At(pre, e.a[2]).al)
    [] e.op = "swp"  -> TRUE
    [] OTHER -> FALSE

MoveContent(e, pre, post) ==
  e.op \in {"mvc", "mvca", "mva"} /\ Ok(e) =>
    LET X == At(pre, e.a[2])
        D == At(post, e.a[1])
        Y == At(post, e.a[2]) IN
    /\ D.on = 1 /\ Y.on = 1
    /\ SameVals(X, D)
    /\ Steals(e, pre) => \A t \in TypesOf(X) : Addr(D, t) = Addr(X, t)
    (* no element is left behind *)
    /\ Total(Y) = 0
    /\ Y.al = X.al

MoveNoCopies(e, pre, post) ==
  e.op \in MoveOps /\ Ok(e) =>
    (Steals(e, pre) \/ MovesOnly(At(pre, e.a[2])) => e.nc = 0)

SwapContent(e, pre, post) ==
  e.op = "swp" /\ Ok(e) =>
    LET Pair(c, d) ==
          /\ At(post, c).on = 1
          /\ SameVals(At(post, c), At(pre, d))
          /\ \A t \in TypesOf(At(pre, d)) :
               Addr(At(post, c), t) = Addr(At(pre, d), t) IN
    Pair(e.a[1], e.a[2]) /\ Pair(e.a[2], e.a[1])

(* -- equality -- *)

Equality(e, pre, post) ==
  e.op = "eq" /\ Ok(e) =>
    LET C == At(pre, e.a[1])
        D == At(pre, e.a[2]) IN
    e.r[1] = IF EqSoFar(C, D) THEN 1 ELSE 0

(* -- allocators -- *)

CopyAl(x) == IF Soccc THEN x + 100 ELSE x
AllocId(e, pre, post) ==
  LET P(c) == At(post, c)
      Q(c) == At(pre, c) IN
  /\ e.op \in SingleOps => P(e.a[1]).al = Q(e.a[1]).al
  /\ Ok(e) =>
     CASE e.op \in {"new", "ctorr"} -> P(e.a[1]).al = e.a[2]
       [] e.op = "cpc"  -> P(e.a[1]).al = CopyAl(Q(e.a[2]).al)
       [] e.op \in {"cpca", "mvca"} -> P(e.a[1]).al = e.a[3]
       [] e.op = "mvc"  -> P(e.a[1]).al = Q(e.a[2]).al
       [] e.op = "cpa"  ->
            P(e.a[1]).al = IF Pocca THEN Q(e.a[2]).al ELSE Q(e.a[1]).al
       [] e.op = "mva"  ->
            P(e.a[1]).al = IF Pocma THEN Q(e.a[2]).al ELSE Q(e.a[1]).al
       [] e.op = "swp"  ->
            IF Pocs THEN /\ P(e.a[1]).al = Q(e.a[2]).al
                         /\ P(e.a[2]).al = Q(e.a[1]).al
            ELSE /\ P(e.a[1]).al = Q(e.a[1]).al
                 /\ P(e.a[2]).al = Q(e.a[2]).al
       [] OTHER -> TRUE

(* blocks outstanding belong to the allocators of existing collections;
   everything is given back in the end *)
AllocBlocks(e, pre, post) ==
  IF e.op = "reset" THEN e.ob = <<>>
  ELSE \A i \in DOMAIN e.ob :
         \/ AlwaysEq
         \/ e.ob[i][1] \in {post[c].al : c \in OnSlots(post)}

RECURSIVE SumCounts(_, _)
SumCounts(st, S) ==
  IF S = {} THEN 0
  ELSE LET c == CHOOSE c \in S : TRUE IN Total(st[c]) + SumCounts(st, S \ {c})
RECURSIVE TrackedIn(_, _)
TrackedIn(S, k) ==
  IF k = 0 THEN 0
  ELSE (IF Tracked(S[k].t) THEN Len(S[k].e) ELSE 0) + TrackedIn(S, k - 1)
RECURSIVE SumTracked(_, _)
SumTracked(st, S) ==
  IF S = {} THEN 0
  ELSE LET c == CHOOSE c \in S : TRUE IN
       TrackedIn(st[c].S, Len(st[c].S)) + SumTracked(st, S \ {c})

(* allocator-made constructions minus destructions = elements in existence *)
AllocConstruct(e, pre, post) == e.cd = SumCounts(post, OnSlots(post))

(* -- lifetime -- *)

LifeCount(e, pre, post) == e.lv = SumTracked(post, OnSlots(post))
LifeClean(e, pre, post) ==
  /\ e.an = <<>>
  \* 120: an element not aligned as its type requires
  /\ \A c \in OnSlots(post) : \A i \in DOMAIN post[c].vd : post[c].vd[i][1] # 120

(* -- observation coherence -- *)

Coherent(e, pre, post) ==
  \A c \in OnSlots(post) :
    LET C == post[c] IN
    /\ C.n = Total(C)
    /\ C.em = IF Total(C) = 0 THEN 1 ELSE 0
    /\ C.g = FlatA(C)
    /\ \A i \in DOMAIN C.S : Len(C.S[i].a) = Len(C.S[i].e)
    /\ \A i \in DOMAIN C.vd : C.vd[i][1] >= 100
    /\ LET G == C.g IN Cardinality(Range(G)) = Len(G)

PolyAccess(e, pre, post) ==
  \A c \in OnSlots(post) : \A i \in DOMAIN post[c].vd : post[c].vd[i][1] < 100

(* traversal order of segments persists as long as no segment is created *)
OrderStable(e, pre, post) ==
  /\ e.op \in SingleOps =>
       LET C == At(pre, e.a[1])
           D == At(post, e.a[1]) IN
       TypesOf(C) = TypesOf(D) => Order(C) = Order(D)
  /\ e.op = "swp" /\ Ok(e) =>
       /\ Order(At(post, e.a[1])) = Order(At(pre, e.a[2]))
       /\ Order(At(post, e.a[2])) = Order(At(pre, e.a[1]))
  /\ e.op \in {"mvc", "mvca", "mva"} /\ Ok(e) /\ Steals(e, pre) =>
       Order(At(post, e.a[1])) = Order(At(pre, e.a[2]))

(* -- validity of iterators and references -- *)

(* how many positions of the segment of type t of pre collection c remain
   valid (size+1: all of them including the past-the-end position) *)
Keep(e, pre, c, t) ==
  LET C == At(pre, c)
      all == Sz(C, t) + 1 IN
  IF e.op \in SingleOps \cup {"ctorr"} /\ e.a[1] # c THEN all
  ELSE
  CASE e.op \in {"ins", "ali", "insr"} ->
         LET m == Len(PickT(Src(e, pre), Len(Src(e, pre)), t)) IN
         IF m = 0 THEN all
         ELSE IF Sz(C, t) + m <= Cap(C, t) THEN Pos(e, pre, t) ELSE 0
    [] e.op \in Erasures ->
         LET iv == EraseIv(e, C, t) IN
         IF e.op \in {"er", "err"} THEN (IF iv[1] = iv[2] THEN all ELSE iv[1])
         ELSE IF e.op = "clr" \/ e.a[2] = t THEN 0 ELSE all
    [] e.op = "res"  -> IF e.a[2] <= Cap(C, t) THEN all ELSE 0
    [] e.op = "rest" ->
         IF e.a[2] # t THEN all
         ELSE IF e.a[3] >= 0 /\ e.a[3] <= Cap(C, t) THEN all ELSE 0
    [] e.op = "shr"  -> 0
    [] e.op = "shrt" -> IF e.a[2] = t THEN 0 ELSE all
    [] e.op \in {"eq", "qry", "reg"} -> all
    [] e.op \in CopyOps -> IF c = e.a[1] /\ ~(e.op = "cpa" /\ e.a[1] = e.a[2]) THEN 0 ELSE all
    [] e.op \in {"mvc", "mvca", "mva"} ->
         IF c = e.a[1] THEN 0
         ELSE IF c = e.a[2] THEN (IF Steals(e, pre) THEN all ELSE 0)
         ELSE all
    [] e.op = "swp" -> all
    [] OTHER -> IF e.a[1] = c THEN 0 ELSE all
(* the collection the elements are in after the operation *)
Follow(e, pre, c) ==
  CASE e.op \in {"mvc", "mvca", "mva"} /\ c = e.a[2] /\ Steals(e, pre) -> e.a[1]
    [] e.op = "swp" /\ c = e.a[1] -> e.a[2]
    [] e.op = "swp" /\ c = e.a[2] -> e.a[1]
    [] OTHER -> c

RefsStable(e, pre, post) ==
  e.op # "reset" /\ Ok(e) =>
    \A i \in OnSlots(pre) :
      LET c == i - 1 IN
      \A t \in TypesOf(pre[i]) :
        LET n == Min(Keep(e, pre, c, t), Sz(pre[i], t))
            D == At(post, Follow(e, pre, c)) IN
        n > 0 => Prefix(Addr(D, t), n) = Prefix(Addr(pre[i], t), n)

HandlesStable(e, pre, post) == e.hd = <<>>

(* sanity of the recorder: it examined exactly the handles that the
   specification says are valid *)
HandlesExamined(e, pre) ==
  e.op # "reset" /\ Ok(e) =>
    \A k \in DOMAIN e.hx : e.hx[k][3] = Keep(e, pre, e.hx[k][1], e.hx[k][2])

(* -- failures -- *)

(* documented failures leave the elements of the collection as they were,
   save for range insertion, that gets as far as the offending element
   (see InsContent), and operations that create or replace a collection *)
FailPropagates(e, pre, post) ==
  /\ e.fd = 1 => e.x \in {"fault", "badalloc"} \/ e.op \in {"shr", "shrt"}
  /\ e.fd = 0 => ~Faulted(e)

AffectedTypes(e, pre) ==
  CASE e.op \in Insertions -> SrcTypes(e, pre, Len(Src(e, pre)))
    [] e.op \in {"er", "err"} ->
         LET C == At(pre, e.a[1]) IN
         {t \in TypesOf(C) : EraseIv(e, C, t)[1] < EraseIv(e, C, t)[2]}
    [] e.op \in {"clrt", "shrt", "rest"} -> {e.a[2]}
    [] e.op \in {"clr", "res", "shr"} -> TypesOf(At(pre, e.a[1]))
    [] OTHER -> {}

(* a failed operation does not touch the segments it was not aimed at *)
FailConfined(e, pre, post) ==
  Faulted(e) /\ e.op \in SingleOps =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    /\ D.on = 1 /\ D.al = C.al
    /\ TypesOf(C) \subseteq TypesOf(D)
    /\ \A t \in TypesOf(D) \ AffectedTypes(e, pre) :
         IF Has(C, t) THEN Vals(D, t) = Vals(C, t) /\ Addr(D, t) = Addr(C, t)
         ELSE Sz(D, t) = 0 /\ e.op = "reg"

(* no value appears out of thin air *)
FailValues(e, pre, post) ==
  Faulted(e) /\ e.op \in SingleOps =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    \A t \in AffectedTypes(e, pre) :
      Range(Vals(D, t)) \subseteq
        Range(Vals(C, t)) \cup {-1} \cup
        (IF e.op \in Insertions
         THEN Range(PickT(Src(e, pre), Len(Src(e, pre)), t)) ELSE {})

(* appending is all or nothing, element by element, when the elements can be
   relocated without risk; running out of memory never loses elements *)
StrongCase(e, pre) ==
  LET T == AffectedTypes(e, pre) IN
  \/ e.x = "badalloc" /\ e.op \in {"ins", "ali", "insr", "res", "rest", "shr", "shrt",
                                   "er", "err", "clr", "clrt", "reg"}
  \/ /\ e.op \in {"ins", "ali", "res", "rest", "shr", "shrt", "reg"}
     /\ \A t \in T : /\ NothrowMove(t) \/ Copyable(t)
                     /\ e.op \in {"ins", "ali"} =>
                          Pos(e, pre, t) = Sz(At(pre, e.a[1]), t)
FailStrong(e, pre, post) ==
  Faulted(e) /\ e.op \in SingleOps /\ StrongCase(e, pre) =>
    LET C == At(pre, e.a[1])
        D == At(post, e.a[1]) IN
    IF e.op \in {"ins", "ali", "insr"}
    THEN \E k \in 0..(IF e.op = "insr" THEN Len(Src(e, pre)) ELSE 0) :
           \A t \in TypesOf(C) \cup TypesOf(D) :
             Vals(D, t) = InsertedVals(e, pre, t, k)
    ELSE SameElems(C, D)

(* failed construction leaves no object; failed copies do not harm the
   source *)
FailCreate(e, pre, post) ==
  Faulted(e) =>
    /\ e.op \in CtorOps => At(post, e.a[1]).on = 0
    /\ e.op \in {"cpa", "mva", "swp"} =>
         At(post, e.a[1]).on = 1 /\ At(post, e.a[2]).on = 1
    /\ e.op \in CopyOps /\ e.a[1] # e.a[2] =>
         Same(At(pre, e.a[2]), At(post, e.a[2]))

Outcome(e, pre, post) == e.op # "reset" => OutcomeOk(e, pre)

-----------------------------------------------------------------------------
(* Clause table *)

Holds(nm, e, pre, post) ==
  CASE nm = "Frame"          -> Frame(e, pre, post)
    [] nm = "Outcome"        -> Outcome(e, pre, post)
    [] nm = "InsContent"     -> InsContent(e, pre, post)
    [] nm = "InsRegister"    -> InsRegister(e, pre, post)
    [] nm = "InsResult"      -> InsResult(e, pre, post)
    [] nm = "InsSource"      -> InsSource(e, pre, post)
    [] nm = "InsSourceFail"  -> InsSourceFail(e, pre, post)
    [] nm = "InsNoCopies"    -> InsNoCopies(e, pre, post)
    [] nm = "EraseContent"   -> EraseContent(e, pre, post)
    [] nm = "EraseResult"    -> EraseResult(e, pre, post)
    [] nm = "EraseNoCopies"  -> EraseNoCopies(e, pre, post)
    [] nm = "CapContent"     -> CapContent(e, pre, post)
    [] nm = "CapReserve"     -> CapReserve(e, pre, post)
    [] nm = "CapSound"       -> CapSound(e, pre, post)
    [] nm = "CapNoCopies"    -> CapNoCopies(e, pre, post)
    [] nm = "Query"          -> Query(e, pre, post)
    [] nm = "Register"       -> Register(e, pre, post)
    [] nm = "RegPersist"     -> RegPersist(e, pre, post)
    [] nm = "NewEmpty"       -> NewEmpty(e, pre, post)
    [] nm = "CopyContent"    -> CopyContent(e, pre, post)
    [] nm = "CopySource"     -> CopySource(e, pre, post)
    [] nm = "MoveContent"    -> MoveContent(e, pre, post)
    [] nm = "MoveNoCopies"   -> MoveNoCopies(e, pre, post)
    [] nm = "SwapContent"    -> SwapContent(e, pre, post)
    [] nm = "Equality"       -> Equality(e, pre, post)
    [] nm = "AllocId"        -> AllocId(e, pre, post)
    [] nm = "AllocBlocks"    -> AllocBlocks(e, pre, post)
    [] nm = "AllocConstruct" -> AllocConstruct(e, pre, post)
    [] nm = "LifeCount"      -> LifeCount(e, pre, post)
    [] nm = "LifeClean"      -> LifeClean(e, pre, post)
    [] nm = "Coherent"       -> Coherent(e, pre, post)
    [] nm = "PolyAccess"     -> PolyAccess(e, pre, post)
    [] nm = "OrderStable"    -> OrderStable(e, pre, post)
    [] nm = "RefsStable"     -> RefsStable(e, pre, post)
    [] nm = "HandlesStable"  -> HandlesStable(e, pre, post)
    [] nm = "FailPropagates" -> FailPropagates(e, pre, post)
    [] nm = "FailConfined"   -> FailConfined(e, pre, post)
    [] nm = "FailValues"     -> FailValues(e, pre, post)
    [] nm = "FailStrong"     -> FailStrong(e, pre, post)
    [] nm = "FailCreate"     -> FailCreate(e, pre, post)

InsClauses   == {"InsContent", "InsRegister", "InsResult", "InsSource",
                 "InsSourceFail", "InsNoCopies"}
EraseClauses == {"EraseContent", "EraseResult", "EraseNoCopies"}
CapClauses   == {"CapContent", "CapReserve", "CapSound", "CapNoCopies"}
CopyClauses  == {"CopyContent", "CopySource"}
MoveClauses  == {"MoveContent", "MoveNoCopies", "SwapContent"}
RegClauses   == {"Query", "Register", "RegPersist", "NewEmpty", "InsRegister"}
AllocClauses == {"AllocId", "AllocBlocks", "AllocConstruct"}
LifeClauses  == {"LifeCount", "LifeClean"}
FailClauses  == {"FailPropagates", "FailConfined", "FailValues", "FailStrong",
                 "FailCreate"}
Functional   == InsClauses \cup EraseClauses \cup CapClauses \cup CopyClauses
                \cup MoveClauses \cup RegClauses \cup {"Equality", "Frame",
                "Outcome", "Coherent"}
AllClauses   == Functional \cup AllocClauses \cup LifeClauses \cup FailClauses
                \cup {"PolyAccess", "OrderStable", "RefsStable",
                      "HandlesStable"}

(* operations a property is about; its clauses are evaluated on those *)
AllOps == SingleOps \cup CtorOps \cup CopyOps \cup MoveOps \cup
          {"eq", "del", "reset"}

Scope(p) ==
  CASE p = "C01" -> {"ins"}
    [] p = "C02" -> {"insr", "ctorr"}
    [] p = "C03" -> Erasures
    [] p = "C06" -> CapOps \cup {"ins", "insr", "er", "err", "clr", "clrt", "qry"}
    [] p = "C10" -> {"eq"}
    [] p = "C21" -> {"ali"}
    [] OTHER -> AllOps

ClausesOf(p) ==
  CASE p = "C01" -> InsClauses \cup {"Frame", "Outcome", "Coherent"} \cup LifeClauses
    [] p = "C02" -> InsClauses \cup {"Frame", "Outcome", "Coherent"} \cup LifeClauses
    [] p = "C03" -> EraseClauses \cup {"Frame", "Outcome", "Coherent"} \cup LifeClauses
    [] p = "C04" -> {"Coherent", "OrderStable"}
    [] p = "C05" -> Functional
    [] p = "C06" -> CapClauses \cup {"Query", "Outcome", "Frame", "RefsStable",
                                     "Coherent"}
    [] p = "C07" -> {"RefsStable", "HandlesStable"}
    [] p = "C08" -> Functional \cup LifeClauses
    [] p = "C09" -> Functional \cup LifeClauses
    [] p = "C10" -> {"Equality", "Outcome", "Frame"}
    [] p = "C11" -> AllocClauses \cup LifeClauses
    [] p = "C12" -> AllClauses
    [] p = "C13" -> AllClauses
    [] p = "C14" -> Functional \cup LifeClauses
    [] p = "C15" -> LifeClauses \cup {"AllocConstruct", "AllocBlocks"}
    [] p = "C19" -> {"PolyAccess"}
    [] p = "C21" -> InsClauses \cup {"Frame", "Outcome", "Coherent"} \cup LifeClauses
    [] OTHER -> AllClauses

Violated(p, e, pre, post) ==
  IF e.op \in Scope(p)
  THEN {nm \in ClausesOf(p) : ~Holds(nm, e, pre, post)}
  ELSE {}
=============================================================================
