------------------------------ MODULE PolyModel -----------------------------
(***************************************************************************)
(* The collections as a state machine: every operation, from every state,  *)
(* computed constructively in the way the implementation carries it out    *)
(* (segments that grow, shrink and change storage; registration on demand; *)
(* transfer or element-wise movement of storage depending on allocators).  *)
(* TLC checks that every transition satisfies all the clauses of PolySpec  *)
(* (StepOk) and prints the transitions, which bin/model.py turns into      *)
(* scripts covering them that are executed on the real code.               *)
(*                                                                         *)
(* Values: with Norm, elements are relabelled after each step by their     *)
(* position (operations other than == do not look at the values, so all    *)
(* contents of the same shape are equivalent). Without Norm, values range  *)
(* over InsVals.                                                           *)
(*                                                                         *)
(* Growth "any" lets a segment choose its new capacity, and a new segment  *)
(* its place in the traversal; "one" makes the model deterministic.        *)
(***************************************************************************)
EXTENDS PolySpec, IOUtils, Json

VARIABLE st

Cfg     == JsonDeserialize(IOEnv.VCFG)
SetOf(s) == {s[i] : i \in DOMAIN s}
NSlots  == Cfg.slots
Types   == SetOf(Cfg.types)
InsVals == IF Cfg.norm = 1 THEN {91} ELSE SetOf(Cfg.vals)
MaxLen  == Cfg.maxlen
MaxCap  == Cfg.maxcap
MaxSrc  == Cfg.maxsrc
Als     == SetOf(Cfg.als)
OpsOn   == SetOf(Cfg.ops)
Norm    == Cfg.norm = 1
AnyG    == Cfg.growth = "any"
EdgesOn == Cfg.edges = 1
Cap0    == Cfg.cap0
Prop    == Cfg.prop

MCopyable(t)    == t \notin {3, 7}
MComparable(t)  == t # 4
MNothrowMove(t) == t \notin {6, 7}
MTracked(t)     == TRUE
MSelfType(t)    == FALSE
CBit(b)   == (Cfg.alf \div b) % 2 = 1
MPocca    == CBit(1)
MPocma    == CBit(2)
MPocs     == CBit(4)
MAlwaysEq == CBit(8)
MSoccc    == FALSE
MMaxSize  == Cfg.mx

-----------------------------------------------------------------------------
(* Construction of collections. Storage blocks: identities of elements are *)
(* block * 10 + position. Canonical blocks are below 1000; blocks obtained *)
(* during the current step are 1000 and above.                             *)

Blk(c, t)      == (c + 1) * 10 + t
FreshBlk(c, t) == 1000 + Blk(c, t)
Seg(t, e, cap, b) ==
  [t |-> t, e |-> e, cap |-> cap, a |-> [i \in 1..Len(e) |-> b * 10 + i], b |-> b]

Coll(al, S) ==
  [on |-> 1, al |-> al, n |-> SumLen(S, Len(S)),
   em |-> IF SumLen(S, Len(S)) = 0 THEN 1 ELSE 0,
   S |-> S, g |-> ConcatA(S, Len(S)), vd |-> <<>>]

(* canonical form of a state, stored between steps *)
NormColl(c, C) ==
  IF C.on = 0 THEN NoColl
  ELSE Coll(C.al,
    [i \in DOMAIN C.S |->
       LET s == C.S[i] IN
       Seg(s.t, IF Norm THEN [k \in 1..Len(s.e) |-> k] ELSE s.e, s.cap, Blk(c, s.t))])
NormSt(s) == [i \in DOMAIN s |-> NormColl(i - 1, s[i])]

(* capacities a segment of n elements and capacity cap may take to hold m *)
Grown(cap, n, m) ==
  IF m <= cap THEN {cap}
  ELSE {IF MaxSize = 0 THEN Max(m, 2 * n) ELSE Min(MaxSize, Max(m, 2 * n))} \cup (IF AnyG THEN {m} ELSE {})

Rev(S) == [i \in DOMAIN S |-> S[Len(S) + 1 - i]]
Orders(S) == IF AnyG THEN {S, Rev(S)} ELSE {S}

HasSeg(S, t) == \E i \in DOMAIN S : S[i].t = t
(* S with the types T registered, at any place of the traversal *)
RECURSIVE Registered(_, _, _)
Registered(c, S, T) ==
  LET N == {t \in T : ~HasSeg(S, t)} IN
  IF N = {} THEN {S}
  ELSE LET t == CHOOSE t \in N : \A u \in N : t <= u IN
       UNION {Registered(c, InsertAt(S, p, <<Seg(t, <<>>, Cap0, FreshBlk(c, t))>>), T) :
                p \in IF AnyG THEN 0..Len(S) ELSE {Len(S)}}

-----------------------------------------------------------------------------
(* Events *)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

(* a transition: operation, arguments, sources, outcome, type blamed, result,
   sources afterwards, element copies, resulting state *)
Tr(op, a, src, x, xi, r, sv, nc, post) ==
  [e |-> [op |-> op, a |-> a, x |-> x, xi |-> xi, r |-> r, src |-> src, sv |-> sv,
          nc |-> nc, fd |-> 0, hd |-> <<>>, hx |-> <<>>, an |-> <<>>,
          lv |-> SumTracked(post, OnSlots(post)), cd |-> SumCounts(post, OnSlots(post)),
          ob |-> SeqOf({<<post[c].al, 1>> : c \in OnSlots(post)})],
   post |-> post]

Put(c, C)  == [st EXCEPT ![c + 1] = C]
Put2(c, C, d, D) == [st EXCEPT ![c + 1] = C, ![d + 1] = D]
SlotNos    == {i - 1 : i \in DOMAIN st}
OnNos      == {c \in SlotNos : At(st, c).on = 1}
Enabled(op) == op \in OpsOn

(* ---- insertion ---- *)

(* S once src[1..k] is in, at the positions determined by pa = <<pf,ht,hi>> *)
InsertedS(c, S, src, k, pa) ==
  LET T == {src[j][1] : j \in 1..k}
      IxS(t) == CHOOSE i \in DOMAIN S : S[i].t = t
      Caps(t) == Grown(S[IxS(t)].cap, Len(S[IxS(t)].e), Len(S[IxS(t)].e) + Len(PickT(src, k, t)))
      F == {f \in [T -> UNION {Caps(t) : t \in T}] : \A t \in T : f[t] \in Caps(t)} IN
  {[i \in DOMAIN S |->
      LET s == S[i] IN
      IF s.t \notin T THEN s
      ELSE LET p == IF pa[1] # 0 /\ pa[2] = s.t THEN pa[3] ELSE Len(s.e) IN
           Seg(s.t, InsertAt(s.e, p, PickT(src, k, s.t)), f[s.t],
               IF f[s.t] = s.cap THEN s.b ELSE FreshBlk(c, s.t))] : f \in F}

FitsIn(C, src) ==
  \A t \in Types : Sz(C, t) + Len(PickT(src, Len(src), t)) <= MaxLen

(* hints and positions usable in C for sources of types T *)
PosArgs(C, T) ==
  {<<0, -1, 0>>, <<1, -1, 0>>}
  \cup {<<1, t, i>> : t \in TypesOf(C), i \in 0..MaxLen - 1}
  \cup (IF Cardinality(T) = 1
        THEN {<<p, t, i>> : p \in {2, 3}, t \in T, i \in 0..MaxLen} ELSE {})
PosOk(C, pa) ==
  CASE pa[1] = 0 -> TRUE
    [] pa[1] = 1 -> pa[2] = -1 \/ pa[3] < Sz(C, pa[2])
    [] OTHER     -> Has(C, pa[2]) /\ pa[3] <= Sz(C, pa[2])
GoodPos(C, T) == {pa \in PosArgs(C, T) : PosOk(C, pa)}

InsRes(C, D, t, pa) ==
  LET p == IF pa[1] # 0 /\ pa[2] = t THEN pa[3] ELSE Sz(C, t)
      ad == IF p < Sz(D, t) THEN Addr(D, t)[p + 1] ELSE 0 IN
  IF pa[1] <= 1 THEN <<0, Offset(D, t) + p, ad>> ELSE <<pa[1] - 1, p, ad, t>>

InsOne(c, t, v, pa, poly, how) ==
  LET C == At(st, c)
      src == << <<t, v>> >>
      args == <<c, t, v, pa[1], pa[2], pa[3], poly, how>> IN
  IF poly = 1 /\ ~Has(C, t)
  THEN {Tr("ins", args, <<>>, "unreg", t, <<>>, <<>>, 0, st)}
  ELSE UNION {
    IF how = 0 /\ ~Copyable(t)
    THEN {Tr("ins", args, <<>>, "nocopy", t, <<>>, <<>>, 0, Put(c, Coll(C.al, S0)))}
    ELSE {LET D == Coll(C.al, S) IN
          Tr("ins", args, <<>>, "", 0, InsRes(C, D, t, pa),
             CASE how = 0 -> <<v>> [] how = 1 -> <<-1>> [] OTHER -> <<>>,
             IF how = 0 THEN 1 ELSE 0, Put(c, D))
          : S \in InsertedS(c, S0, src, 1, pa)}
    : S0 \in Registered(c, C.S, {t})}
InsSteps ==
  IF ~Enabled("ins") THEN {} ELSE
  UNION {LET C == At(st, x[1]) IN
         IF Sz(C, x[2]) >= MaxLen
         THEN IF MaxSize = 0 THEN {}
              ELSE {Tr("ins", <<x[1], x[2], x[3], pa[1], pa[2], pa[3], x[4][1], x[4][2]>>,
                       <<>>, "len", 0, <<>>, IF x[4][2] = 2 THEN <<>> ELSE <<x[3]>>, 0, st)
                    : pa \in GoodPos(C, {x[2]})}
         ELSE UNION {InsOne(x[1], x[2], x[3], pa, x[4][1], x[4][2]) : pa \in GoodPos(C, {x[2]})}
         : x \in OnNos \X Types \X InsVals \X {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>}}

(* plain insertion at the end, to reach states cheaply *)
PutSteps ==
  IF ~Enabled("put") THEN {} ELSE
  UNION {IF Sz(At(st, x[1]), x[2]) >= MaxLen THEN {}
         ELSE InsOne(x[1], x[2], x[3], <<0, -1, 0>>, 0, 2) : x \in OnNos \X Types \X InsVals}

AliSteps ==
  IF ~Enabled("ali") THEN {} ELSE
  UNION {LET c == x[1]
             t == x[2]
             i == x[3]
             C == At(st, c) IN
         IF i >= Sz(C, t) \/ (Sz(C, t) >= MaxLen /\ MaxSize = 0) \/ ~Copyable(t) THEN {}
         ELSE IF Sz(C, t) >= MaxLen
         THEN {Tr("ali", <<c, t, i, pa[1], pa[2], pa[3], 0, 0>>, <<>>, "len", 0,
                  <<>>, <<>>, 0, st) : pa \in GoodPos(C, {t})}
         ELSE UNION {
           {LET D == Coll(C.al, S) IN
            Tr("ali", <<c, t, i, pa[1], pa[2], pa[3], 0, 0>>, <<>>, "", 0,
               InsRes(C, D, t, pa), <<>>, 1, Put(c, D))
            : S \in InsertedS(c, C.S, << <<t, Vals(C, t)[i + 1]>> >>, 1, pa)}
           : pa \in GoodPos(C, {t})}
         : x \in OnNos \X Types \X (0..MaxLen - 1)}

Sources == UNION {[1..n -> Types \X (IF Norm THEN {90} ELSE InsVals)] : n \in 0..MaxSrc}
(* distinct values of the elements of a range *)
Numbered(s) == IF Norm THEN [i \in DOMAIN s |-> <<s[i][1], 90 + i>>] ELSE s

InsrOne(c, s, pa, reg, how) ==
  LET C == At(st, c)
      args == <<c, pa[1], pa[2], pa[3], reg, how>>
      e0 == [op |-> "insr", a |-> args, src |-> s]
      k == NIns(e0, st)
      f == FailAt(e0, st)
      T == {s[j][1] : j \in 1..k}
      l == LenAt(e0, st) IN
  IF ~FitsIn(C, s)
  THEN IF MaxSize = 0 \/ f # 0 THEN {}
       \* nothing is inserted, or the elements preceding the one in excess
       ELSE UNION {UNION {{Tr("insr", args, s, "len", 0, <<>>,
                             IF how = 0 THEN [j \in DOMAIN s |-> s[j][2]] ELSE <<>>,
                             IF how = 0 THEN m ELSE 0, Put(c, Coll(C.al, S)))
                          : S \in InsertedS(c, S0, s, m, pa)} : m \in {0, l - 1}}
                   : S0 \in Registered(c, C.S, {s[j][1] : j \in 1..(l - 1)})}
  ELSE UNION {
    IF f # 0
    THEN {Tr("insr", args, s, IF FailsUnreg(e0, st, f) THEN "unreg" ELSE "nocopy",
             s[f][1], <<>>, <<>>, k, Put(c, Coll(C.al, S)))
          : S \in InsertedS(c, S0, s, k, pa)}
    ELSE {LET D == Coll(C.al, S) IN
          Tr("insr", args, s, "", 0,
             IF pa[1] <= 1 THEN <<>> ELSE InsRes(C, D, pa[2], pa),
             CASE how = 0 -> [j \in DOMAIN s |-> s[j][2]]
               [] how = 1 -> [j \in DOMAIN s |-> -1] [] OTHER -> <<>>,
             IF how = 0 THEN Len(s) ELSE 0, Put(c, D))
          : S \in InsertedS(c, S0, s, k, pa)}
    : S0 \in Registered(c, C.S, T)}
InsrSteps ==
  IF ~Enabled("insr") THEN {} ELSE
  UNION {LET s == Numbered(x[2])
             T == {s[j][1] : j \in DOMAIN s}
             one == Cardinality(T) = 1 IN
         UNION {UNION {InsrOne(x[1], s, pa, y[1], y[2])
                       : pa \in {p \in GoodPos(At(st, x[1]), T) : y[2] = 2 => p[1] = 3}}
                : y \in (IF one THEN {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<0, 0>>}
                         ELSE {<<1, 0>>, <<0, 0>>})}
         : x \in OnNos \X Sources}

CtorrSteps ==
  IF ~Enabled("ctorr") THEN {} ELSE
  UNION {LET c == x[1]
             s == Numbered(x[2])
             T == {s[j][1] : j \in DOMAIN s}
             args == <<c, x[3], x[4][1], x[4][2]>>
             e0 == [op |-> "ctorr", a |-> args, src |-> s]
             f == FailAt(e0, st) IN
         IF ~FitsIn(NoColl, s) \/ (x[4][2] = 1 /\ Cardinality(T) # 1) THEN {}
         ELSE IF f # 0
         THEN {Tr("ctorr", args, s, IF FailsUnreg(e0, st, f) THEN "unreg" ELSE "nocopy",
                  s[f][1], <<>>, <<>>, 0, Put(c, NoColl))}
         ELSE UNION {{Tr("ctorr", args, s, "", 0, <<>>,
                         [j \in DOMAIN s |-> IF x[4][2] = 0 THEN s[j][2] ELSE -1],
                         IF x[4][2] = 0 THEN Len(s) ELSE 0, Put(c, Coll(x[3], S)))
                      : S \in InsertedS(c, S0, s, Len(s), <<0, -1, 0>>)}
                     : S0 \in Registered(c, <<>>, T)}
         : x \in SlotNos \X Sources \X Als \X {<<1, 0>>, <<1, 1>>, <<0, 0>>}}

(* ---- erasure ---- *)

Cut(S, t, i, j) ==
  [k \in DOMAIN S |-> IF S[k].t = t THEN Seg(t, RemoveRange(S[k].e, i, j), S[k].cap, S[k].b)
                      ELSE S[k]]
(* erasure of positions [i,j) of the global traversal, segment by segment *)
RECURSIVE CutFlat(_, _, _, _)
CutFlat(S, k, i, j) ==
  IF k > Len(S) THEN <<>>
  ELSE LET n == Len(S[k].e)
           x == Max(0, Min(n, i))
           y == Max(x, Min(n, j)) IN
       <<Seg(S[k].t, RemoveRange(S[k].e, x, y), S[k].cap, S[k].b)>>
         \o CutFlat(S, k + 1, i - n, j - n)

ErSteps ==
  UNION {LET C == At(st, c) IN
    (IF ~Enabled("er") THEN {} ELSE
     {LET D == Coll(C.al, Cut(C.S, x[1], x[2], x[2] + 1)) IN
      Tr("er", <<c, x[1], x[2], x[1], x[2] + 1, x[3]>>, <<>>, "", 0,
         LET ad == IF x[2] < Sz(D, x[1]) THEN Addr(D, x[1])[x[2] + 1] ELSE 0
             p == Offset(C, x[1]) + x[2] IN
         IF x[3] = 0 THEN <<0, p, IF p < Total(D) THEN FlatA(D)[p + 1] ELSE 0>>
         ELSE <<x[3], x[2], ad, x[1]>>, <<>>, 0, Put(c, D))
      : x \in {y \in TypesOf(C) \X (0..MaxLen - 1) \X {0, 1, 2} : y[2] < Sz(C, y[1])}})
    \cup
    (IF ~Enabled("err") THEN {} ELSE
     {LET D == Coll(C.al, Cut(C.S, x[1], x[2], x[3]))
          ad == IF x[2] < Sz(D, x[1]) THEN Addr(D, x[1])[x[2] + 1] ELSE 0 IN
      Tr("err", <<c, x[1], x[2], x[1], x[3], x[4]>>, <<>>, "", 0, <<x[4], x[2], ad, x[1]>>,
         <<>>, 0, Put(c, D))
      : x \in {y \in TypesOf(C) \X (0..MaxLen) \X (0..MaxLen) \X {1, 2} :
                 y[2] <= y[3] /\ y[3] <= Sz(C, y[1])}}
     \cup
     {LET D == Coll(C.al, CutFlat(C.S, 1, x[1], x[2])) IN
      Tr("err", <<c, -1, x[1], -1, x[2], 0>>, <<>>, "", 0,
         <<0, x[1], IF x[1] < Total(D) THEN FlatA(D)[x[1] + 1] ELSE 0>>, <<>>, 0, Put(c, D))
      : x \in {y \in (0..Total(C)) \X (0..Total(C)) : y[1] <= y[2]}})
    : c \in OnNos}

ClrSteps ==
  UNION {LET C == At(st, c) IN
    (IF ~Enabled("clr") THEN {} ELSE
     {Tr("clr", <<c>>, <<>>, "", 0, <<>>, <<>>, 0,
         Put(c, Coll(C.al, [i \in DOMAIN C.S |-> Seg(C.S[i].t, <<>>, C.S[i].cap, C.S[i].b)])))})
    \cup
    (IF ~Enabled("clrt") THEN {} ELSE
     {IF Has(C, t)
      THEN Tr("clrt", <<c, t, 0>>, <<>>, "", 0, <<>>, <<>>, 0,
              Put(c, Coll(C.al, Cut(C.S, t, 0, Sz(C, t)))))
      ELSE Tr("clrt", <<c, t, 0>>, <<>>, "unreg", t, <<>>, <<>>, 0, st) : t \in Types})
    : c \in OnNos}

(* ---- capacity ---- *)

Recap(c, s, cap) == IF cap = s.cap THEN s ELSE Seg(s.t, s.e, cap, FreshBlk(c, s.t))
Resd(c, S, T, n) ==
  [i \in DOMAIN S |-> IF S[i].t \in T THEN Recap(c, S[i], Max(S[i].cap, n)) ELSE S[i]]
Shrd(c, S, T) ==
  [i \in DOMAIN S |-> IF S[i].t \in T
                      THEN Recap(c, S[i], Min(S[i].cap, Max(Cap0, Len(S[i].e)))) ELSE S[i]]

CapSteps ==
  UNION {LET C == At(st, c) IN
    (IF ~Enabled("res") THEN {} ELSE
     {IF MaxSize # 0 /\ n > MaxSize /\ C.S # <<>>
      THEN Tr("res", <<c, n>>, <<>>, "len", 0, <<>>, <<>>, 0, st)
      ELSE Tr("res", <<c, n>>, <<>>, "", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, Resd(c, C.S, Types, n))))
      : n \in 0..MaxCap})
    \cup
    (IF ~Enabled("rest") THEN {} ELSE
     UNION {LET t == x[1]
                n == x[2]
                args == <<c, t, n, x[3]>> IN
       IF x[3] # 0 /\ ~Has(C, t) THEN {Tr("rest", args, <<>>, "unreg", t, <<>>, <<>>, 0, st)}
       ELSE {IF n < 0 \/ (MaxSize # 0 /\ n > MaxSize) THEN Tr("rest", args, <<>>, "len", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, S)))
             ELSE Tr("rest", args, <<>>, "", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, Resd(c, S, {t}, n))))
             : S \in Registered(c, C.S, {t})}
       : x \in Types \X (-1..MaxCap) \X {0, 1}})
    \cup
    (IF ~Enabled("shr") THEN {} ELSE
     {Tr("shr", <<c>>, <<>>, "", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, Shrd(c, C.S, Types))))})
    \cup
    (IF ~Enabled("shrt") THEN {} ELSE
     {IF Has(C, t)
      THEN Tr("shrt", <<c, t, 0>>, <<>>, "", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, Shrd(c, C.S, {t}))))
      ELSE Tr("shrt", <<c, t, 0>>, <<>>, "unreg", t, <<>>, <<>>, 0, st) : t \in Types})
    : c \in OnNos}

(* ---- registration and queries ---- *)

RegSteps ==
  UNION {LET C == At(st, c) IN
    (IF ~Enabled("reg") THEN {} ELSE
     UNION {{Tr("reg", <<c, t>>, <<>>, "", 0, <<>>, <<>>, 0, Put(c, Coll(C.al, S)))
             : S \in Registered(c, C.S, {t})} : t \in Types})
    \cup
    (IF ~Enabled("qry") THEN {} ELSE
     {LET t == x[1]
          v == CASE x[2] = 8 -> IF Sz(C, t) = 0 THEN 1 ELSE 0
                 [] x[2] = 9 -> Sz(C, t)
                 [] x[2] = 11 -> Cap(C, t)
                 [] OTHER -> IF Has(C, t) THEN 1 ELSE 0 IN
      IF x[2] # 12 /\ ~Has(C, t)
      THEN Tr("qry", <<c, t, x[2]>>, <<>>, "unreg", t, <<>>, <<>>, 0, st)
      ELSE Tr("qry", <<c, t, x[2]>>, <<>>, "", 0, <<v>>, <<>>, 0, st)
      : x \in Types \X {8, 9, 11, 12}})
    : c \in OnNos}

(* ---- whole collections ---- *)

Tight(c, S) == [i \in DOMAIN S |-> Seg(S[i].t, S[i].e, Max(Cap0, Len(S[i].e)), FreshBlk(c, S[i].t))]
Ncopies(S) == SumLen(S, Len(S))
PickNocopy(X) == CHOOSE t \in NocopyTypes(X) : TRUE
Distinct == {x \in SlotNos \X OnNos : x[1] # x[2]}

LifeSteps ==
  (IF ~Enabled("new") THEN {} ELSE
   {Tr("new", <<x[1], x[2]>>, <<>>, "", 0, <<>>, <<>>, 0, Put(x[1], Coll(x[2], <<>>))) : x \in SlotNos \X Als})
  \cup
  (IF ~Enabled("del") THEN {} ELSE
   {Tr("del", <<c>>, <<>>, "", 0, <<>>, <<>>, 0, Put(c, NoColl)) : c \in OnNos})

CopyCtor(op, c, d, args, al) ==
  LET X == At(st, d) IN
  IF NocopyTypes(X) # {}
  THEN {Tr(op, args, <<>>, "nocopy", PickNocopy(X), <<>>, <<>>, 0, Put(c, NoColl))}
  ELSE {Tr(op, args, <<>>, "", 0, <<>>, <<>>, Ncopies(X.S), Put(c, Coll(al, Tight(c, S)))) : S \in Orders(X.S)}

CopySteps ==
  (IF ~Enabled("cpc") THEN {} ELSE
   UNION {CopyCtor("cpc", x[1], x[2], <<x[1], x[2], 0>>, At(st, x[2]).al) : x \in Distinct})
  \cup
  (IF ~Enabled("cpca") THEN {} ELSE
   UNION {UNION {CopyCtor("cpca", x[1], x[2], <<x[1], x[2], al>>, al) : al \in Als} : x \in Distinct})
  \cup
  (IF ~Enabled("cpa") THEN {} ELSE
   UNION {LET c == x[1]
              d == x[2]
              X == At(st, d)
              al == IF Pocca THEN X.al ELSE At(st, c).al IN
     IF c = d THEN {Tr("cpa", <<c, d>>, <<>>, "", 0, <<>>, <<>>, 0, st)}
     ELSE IF NocopyTypes(X) # {}
     THEN {Tr("cpa", <<c, d>>, <<>>, "nocopy", PickNocopy(X), <<>>, <<>>, 0, Put(c, Coll(al, <<>>)))}
     ELSE {Tr("cpa", <<c, d>>, <<>>, "", 0, <<>>, <<>>, Ncopies(X.S), Put(c, Coll(al, Tight(c, S)))) : S \in Orders(X.S)}
     : x \in OnNos \X OnNos})

(* contents and storage handed over *)
Taken(al, X) == Coll(al, X.S)
MoveSteps ==
  (IF ~Enabled("mvc") THEN {} ELSE
   {LET X == At(st, x[2]) IN
    Tr("mvc", <<x[1], x[2], 0>>, <<>>, "", 0, <<>>, <<>>, 0,
       Put2(x[1], Taken(X.al, X), x[2], Coll(X.al, <<>>))) : x \in Distinct})
  \cup
  (IF ~Enabled("mvca") THEN {} ELSE
   {LET X == At(st, x[1][2])
        c == x[1][1] IN
    Tr("mvca", <<c, x[1][2], x[2]>>, <<>>, "", 0, <<>>, <<>>, 0,
       Put2(c, IF AlEq(X.al, x[2]) THEN Taken(x[2], X) ELSE Coll(x[2], Tight(c, X.S)),
            x[1][2], Coll(X.al, <<>>))) : x \in Distinct \X Als})
  \cup
  (IF ~Enabled("mva") THEN {} ELSE
   {LET c == x[1]
        d == x[2]
        X == At(st, d)
        al == IF Pocma THEN X.al ELSE At(st, c).al IN
    Tr("mva", <<c, d>>, <<>>, "", 0, <<>>, <<>>, 0,
       Put2(c, IF Pocma \/ AlEq(At(st, c).al, X.al) THEN Taken(al, X) ELSE Coll(al, Tight(c, X.S)),
            d, Coll(X.al, <<>>))) : x \in {y \in OnNos \X OnNos : y[1] # y[2]}})
  \cup
  (IF ~Enabled("swp") THEN {} ELSE
   {LET X == At(st, x[1])
        Y == At(st, x[2]) IN
    Tr("swp", <<x[1], x[2], 0>>, <<>>, "", 0, <<>>, <<>>, 0,
       IF x[1] = x[2] THEN st
       ELSE Put2(x[1], Taken(IF Pocs THEN Y.al ELSE X.al, Y), x[2], Taken(IF Pocs THEN X.al ELSE Y.al, X)))
    : x \in {y \in OnNos \X OnNos : Pocs \/ AlEq(At(st, y[1]).al, At(st, y[2]).al)}})

(* segment-wise comparison in the order of the first collection, the way the
   implementation goes about it *)
RECURSIVE EqScan(_, _, _)
EqScan(C, D, k) ==
  IF k > Len(C.S) THEN <<"", 0, IF Total(C) = Total(D) THEN 1 ELSE 0>>
  ELSE LET t == C.S[k].t
           n == Len(C.S[k].e) IN
       IF ~Has(D, t) THEN (IF n # 0 THEN <<"", 0, 0>> ELSE EqScan(C, D, k + 1))
       ELSE IF n # Sz(D, t) THEN <<"", 0, 0>>
       ELSE IF n > 0 /\ ~Comparable(t) THEN <<"noeq", t, 0>>
       ELSE IF C.S[k].e # Vals(D, t) THEN <<"", 0, 0>>
       ELSE EqScan(C, D, k + 1)
EqSteps ==
  IF ~Enabled("eq") THEN {} ELSE
  {LET q == EqScan(At(st, x[1]), At(st, x[2]), 1) IN
   Tr("eq", <<x[1], x[2], 0>>, <<>>, q[1], q[2], IF q[1] = "" THEN <<q[3]>> ELSE <<>>, <<>>, 0, st)
   : x \in OnNos \X OnNos}

-----------------------------------------------------------------------------

Steps == InsSteps \cup PutSteps \cup AliSteps \cup InsrSteps \cup CtorrSteps \cup ErSteps \cup ClrSteps
         \cup CapSteps \cup RegSteps \cup LifeSteps \cup CopySteps \cup MoveSteps \cup EqSteps

InBounds(s) ==
  \A i \in DOMAIN s : \A k \in DOMAIN s[i].S : s[i].S[k].cap <= MaxCap /\ Len(s[i].S[k].e) <= MaxLen

Key(s) ==
  [i \in DOMAIN s |-> IF s[i].on = 0 THEN <<>>
     ELSE <<s[i].al, [k \in DOMAIN s[i].S |->
             <<s[i].S[k].t, s[i].S[k].cap, IF Norm THEN Len(s[i].S[k].e) ELSE s[i].S[k].e>>]>>]

StepOk(tr) ==
  LET V == Violated(Prop, tr.e, st, tr.post) IN
  V # {} => PrintT(<<"MODELVIOL", V, tr.e.op, tr.e.a, tr.e.src, Key(st), Key(tr.post)>>) /\ FALSE

Init == st = [i \in 1..NSlots |-> IF Cfg.start = 1 THEN Coll(CHOOSE a \in Als : \A b \in Als : a <= b, <<>>) ELSE NoColl]
Next ==
  \E tr \in Steps :
    /\ InBounds(tr.post)
    /\ Assert(StepOk(tr), "a transition violates the specification")
    /\ EdgesOn => PrintT("E" \o ToString(<<tr.e.op, tr.e.a, tr.e.src, tr.e.x, Key(st), Key(tr.post)>>))
    /\ st' = NormSt(tr.post)
Spec == Init /\ [][Next]_st

(* invariants of reachable states, implied by the clauses but stated on their own *)
Inv ==
  \A c \in DOMAIN st : st[c].on = 1 =>
    /\ \A i, j \in DOMAIN st[c].S : i # j => st[c].S[i].t # st[c].S[j].t
    /\ \A i \in DOMAIN st[c].S : st[c].S[i].cap >= Len(st[c].S[i].e)
    /\ st[c].n = Len(FlatE(st[c]))
    /\ \A d \in DOMAIN st : c # d /\ st[d].on = 1 => Range(FlatA(st[c])) \cap Range(FlatA(st[d])) = {}
=============================================================================
