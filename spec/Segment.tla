------------------------------- MODULE Segment ------------------------------
(***************************************************************************)
(* One segment, down to the elementary steps of its operations, any of     *)
(* which may fail. Elements live in a store (a vector); what global        *)
(* traversal relies on is kept apart from it:                              *)
(*   - snt, the cached position where the segment ends;                    *)
(*   - ix, for function_collection and any_collection, an index with one   *)
(*     entry per element and one for the end.                              *)
(* An operation is a program of steps computed from the state it starts    *)
(* in; observers see the segment only between operations. When a step      *)
(* throws, what was under construction is discarded and the operation ends.*)
(*                                                                         *)
(* Guarded says whether the caches are restored when an operation is left  *)
(* by an exception. The library does (see the fixes in known_findings.txt);*)
(* with Guarded = FALSE TLC exhibits the failures it once had.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  MaxLen, MaxCap,
  Split,        \* has an index
  NothrowMove,  \* moving elements does not throw
  Copyable,
  Guarded

VARIABLES
  el,    \* values in the store; Gone for those moved from
  cap,
  gen,   \* identity of the store's memory (changes with reallocation)
  snt,   \* <<gen, position>> traversal stops at
  ix,    \* sequence of <<gen, position>>
  todo,  \* remaining steps of the operation in progress
  nu,    \* elements constructed in memory not in use yet
  op,    \* operation in progress
  last   \* [op, pre (el), x] of the last operation, for the properties

vars == <<el, cap, gen, snt, ix, todo, nu, op, last>>

Gone == 0
New  == 9                       \* the value being inserted
Idle == todo = <<>>

(* relocation moves unless that may throw and copying is possible *)
Moves == NothrowMove \/ ~Copyable

-----------------------------------------------------------------------------
(* Programs *)

S(k, i, v) == [k |-> k, i |-> i, v |-> v]
Relocate(n) == [j \in 1..n |-> S("reloc", j, 0)]
(* closing steps: the caches catch up with the store *)
Close == <<S("snt", 0, 0)>> \o (IF Split THEN <<S("ix", 0, 0)>> ELSE <<>>)
(* the index grows first, so that it can follow without allocating *)
Room  == IF Split THEN <<S("ixroom", 0, 0)>> ELSE <<>>

Shift(p, n) == [j \in 1..(n - p - 1) |-> S("assign", n - j + 1, n - j)]
PushProg ==
  IF Len(el) < cap THEN <<S("cons", 0, New)>>
  ELSE <<S("alloc", 0, cap + 1), S("consnew", 0, New)>> \o Relocate(Len(el)) \o
       <<S("commit", Len(el) + 1, 0)>>
InsertProg(p) ==       \* 0-based, p < Len(el)
  IF Len(el) < cap
  THEN <<S("consmove", Len(el), 0)>> \o Shift(p, Len(el)) \o
       <<S("assignv", p + 1, New)>>
  ELSE <<S("alloc", 0, cap + 1), S("consnew", p + 1, New)>> \o Relocate(Len(el)) \o
       <<S("commit", p + 1, 0)>>
EraseProg(i, j) ==
  [k \in 1..(Len(el) - j) |-> S("assign", i + k, j + k)] \o
  <<S("trunc", Len(el) - (j - i), 0)>>
RecapProg(c) ==
  <<S("alloc", 0, c)>> \o Relocate(Len(el)) \o <<S("commit", 0, 0)>>

Start(name, prog) ==
  /\ Idle
  /\ op' = name
  /\ todo' = Room \o prog \o Close
  /\ last' = [op |-> name, pre |-> el, x |-> "running", was |-> Moves]
  /\ UNCHANGED <<el, cap, gen, snt, ix, nu>>

Begin ==
  \/ Len(el) < MaxLen /\ cap < MaxCap /\ Start("push", PushProg)
  \/ Len(el) < MaxLen /\ cap < MaxCap /\
       \E p \in 0..Len(el) - 1 : Start("insert", InsertProg(p))
  \/ \E i \in 0..Len(el) - 1 : \E j \in i + 1..Len(el) : Start("erase", EraseProg(i, j))
  \/ \E c \in cap + 1..MaxCap : Start("reserve", RecapProg(c))
  \/ cap > Len(el) /\ Start("shrink", RecapProg(Len(el)))

-----------------------------------------------------------------------------
(* Steps. nu.c is the capacity of the memory obtained, -1 if none; nu.e the *)
(* elements relocated to it, nu.v the new one.                             *)

NoNew == [c |-> -1, e |-> <<>>, v |-> <<>>]
Head1 == todo[1]
Rest1 == SubSeq(todo, 2, Len(todo))

Effect(s) ==
  CASE s.k = "cons"     -> /\ el' = Append(el, s.v)
                           /\ UNCHANGED <<cap, gen, nu, snt, ix>>
    [] s.k = "consmove" -> /\ el' = Append([el EXCEPT ![s.i] = Gone], el[s.i])
                           /\ UNCHANGED <<cap, gen, nu, snt, ix>>
    [] s.k = "assign"   -> /\ el' = [el EXCEPT ![s.i] = el[s.v], ![s.v] = Gone]
                           /\ UNCHANGED <<cap, gen, nu, snt, ix>>
    [] s.k = "assignv"  -> /\ el' = [el EXCEPT ![s.i] = s.v]
                           /\ UNCHANGED <<cap, gen, nu, snt, ix>>
    [] s.k = "trunc"    -> /\ el' = SubSeq(el, 1, s.i)
                           /\ UNCHANGED <<cap, gen, nu, snt, ix>>
    [] s.k = "alloc"    -> /\ nu' = [NoNew EXCEPT !.c = s.v]
                           /\ UNCHANGED <<el, cap, gen, snt, ix>>
    [] s.k = "consnew"  -> /\ nu' = [nu EXCEPT !.v = <<s.v>>]
                           /\ UNCHANGED <<el, cap, gen, snt, ix>>
    [] s.k = "reloc"    -> /\ nu' = [nu EXCEPT !.e = Append(@, el[s.i])]
                           /\ el' = IF Moves THEN [el EXCEPT ![s.i] = Gone] ELSE el
                           /\ UNCHANGED <<cap, gen, snt, ix>>
    [] s.k = "commit"   -> /\ el' = IF s.i = 0 THEN nu.e
                                    ELSE SubSeq(nu.e, 1, s.i - 1) \o nu.v \o
                                         SubSeq(nu.e, s.i, Len(nu.e))
                           /\ cap' = nu.c
                           /\ gen' = 1 - gen
                           /\ nu' = NoNew
                           /\ UNCHANGED <<snt, ix>>
    [] s.k = "ixroom"   -> UNCHANGED <<el, cap, gen, nu, snt, ix>>
    [] s.k = "snt"      -> /\ snt' = <<gen, Len(el)>>
                           /\ UNCHANGED <<el, cap, gen, nu, ix>>
    [] s.k = "ix"       -> /\ ix' = [i \in 1..Len(el) + 1 |-> <<gen, i - 1>>]
                           /\ UNCHANGED <<el, cap, gen, nu, snt>>

Fallible(s) ==
  CASE s.k \in {"cons", "consnew"}          -> TRUE
    [] s.k \in {"alloc", "ixroom"}          -> TRUE
    [] s.k \in {"consmove", "assign", "assignv"} -> ~NothrowMove
    [] s.k = "reloc"                        -> ~(Moves /\ NothrowMove)
    [] OTHER                                -> FALSE
FaultKind(s) == IF s.k \in {"alloc", "ixroom"} THEN "badalloc" ELSE "fault"

Step ==
  /\ ~Idle
  /\ Effect(Head1)
  /\ todo' = Rest1
  /\ IF Rest1 = <<>> THEN op' = "" /\ last' = [last EXCEPT !.x = ""]
     ELSE UNCHANGED <<op, last>>

Throw ==
  /\ ~Idle
  /\ Fallible(Head1)
  /\ todo' = <<>> /\ op' = "" /\ nu' = NoNew
  /\ last' = [last EXCEPT !.x = FaultKind(Head1)]
  /\ UNCHANGED <<el, cap, gen>>
  /\ IF Guarded
     THEN /\ snt' = <<gen, Len(el)>>
          /\ ix' = IF Split THEN [i \in 1..Len(el) + 1 |-> <<gen, i - 1>>] ELSE ix
     ELSE UNCHANGED <<snt, ix>>

(* what the user may do with a segment left with moved-from elements is not
   of interest beyond its validity: elements are renamed by position *)
Rename ==
  /\ Idle /\ last.x # "none"
  /\ el' = [i \in DOMAIN el |-> i]
  /\ last' = [op |-> "", pre |-> <<>>, x |-> "none", was |-> Moves]
  /\ UNCHANGED <<cap, gen, snt, ix, todo, nu, op>>

Init ==
  /\ el = <<>> /\ cap = 0 /\ gen = 0 /\ snt = <<0, 0>>
  /\ ix = IF Split THEN << <<0, 0>> >> ELSE <<>>
  /\ todo = <<>> /\ nu = NoNew /\ op = ""
  /\ last = [op |-> "", pre |-> <<>>, x |-> "none", was |-> Moves]

Next == (last.x = "none" /\ Begin) \/ Step \/ Throw \/ Rename
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties: clauses of PolySpec at this level *)

RangeOf(s) == {s[i] : i \in DOMAIN s}

(* Coherent: every way of traversing the segment meets the same elements *)
Traversable ==
  Idle => /\ snt = <<gen, Len(el)>>
          /\ Split => ix = [i \in 1..Len(el) + 1 |-> <<gen, i - 1>>]
CapSound  == Len(el) <= cap
(* FailValues *)
NoThinAir ==
  Idle => RangeOf(el) \subseteq RangeOf(last.pre) \cup {Gone, New} \cup
                                (IF last.x = "none" THEN RangeOf(el) ELSE {})
(* FailStrong: all or nothing for appending and changes of capacity, unless
   moving may throw and copying is not possible *)
AllOrNothing ==
  Idle /\ last.x \in {"fault", "badalloc"} /\ last.op \in {"push", "reserve", "shrink"} /\
    (NothrowMove \/ Copyable) => el = last.pre
(* FailStrong: running out of memory loses nothing *)
NothingLost ==
  Idle /\ last.x = "badalloc" => el = last.pre
(* success delivers what was asked for *)
Delivered ==
  Idle /\ last.x = "" =>
    CASE last.op = "push"   -> el = Append(last.pre, New)
      [] last.op = "insert" -> \E p \in 1..Len(last.pre) :
           el = SubSeq(last.pre, 1, p - 1) \o <<New>> \o SubSeq(last.pre, p, Len(last.pre))
      [] last.op = "erase"  -> \E i \in 1..Len(last.pre) : \E j \in i..Len(last.pre) :
           el = SubSeq(last.pre, 1, i - 1) \o SubSeq(last.pre, j + 1, Len(last.pre))
      [] OTHER -> el = last.pre
Inv == Traversable /\ CapSound /\ NoThinAir /\ AllOrNothing /\ NothingLost /\ Delivered
=============================================================================
