----------------------------- MODULE AccessTrace ----------------------------
(***************************************************************************)
(* Elements as objects with a state, reached through many paths. The state *)
(* S maps each type to the sequence of the states of its elements; using   *)
(* an element with x, whatever the path, is the same transition. Every     *)
(* event carries what can be observed afterwards: states and addresses     *)
(* through typed access (e, a), addresses through polymorphic access (pa), *)
(* the objects met by global traversal (g), and discrepancies on type      *)
(* identity, casts and conversions (bad).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
Hdr == Log[1]
VARIABLES i, S

NT == Hdr.nt
Stateless(t) == t \in {Hdr.sl[k] : k \in DOMAIN Hdr.sl}
Seen(e) == [t \in 0..NT - 1 |-> e.S[t + 1].e]
Without(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

After(e) ==
  CASE e.op = "new" -> [t \in 0..NT - 1 |-> <<>>]
    [] e.op = "put" -> [S EXCEPT ![e.a[1]] = Append(@, e.a[2])]
    [] e.op = "del" -> [S EXCEPT ![e.a[1]] = Without(@, e.a[2])]
    [] e.op = "use" -> IF Stateless(e.a[1]) THEN S
                       ELSE [S EXCEPT ![e.a[1]][e.a[2] + 1] = @ + e.a[3]]
    [] OTHER        -> S

(* result; copies of the argument: only a parameter passed by value bound to
   an lvalue needs one; parameters passed by reference are the argument *)
Result(e) ==
  LET v == S[e.a[1]][e.a[2] + 1] IN
  << (v + e.a[3]) * 10 + e.a[1],
     IF Hdr.kind = 1 /\ e.a[6] = 1 /\ e.a[5] = 0 THEN 1 ELSE 0,
     1 >>

RECURSIVE Flat(_, _)
Flat(e, k) == IF k = 0 THEN <<>> ELSE Flat(e, k - 1) \o e.S[k].a
RangeOf(s) == {s[k] : k \in DOMAIN s}

Broken(e) ==
     {q \in {"State"}     : Seen(e) # After(e)}
  \cup {q \in {"Result"}  : e.op = "use" /\ e.r # Result(e)}
  \cup {q \in {"Address"} : \E t \in 1..NT : e.S[t].a # e.S[t].pa}
  \cup {q \in {"Global"}  : \/ Len(e.g) # Len(Flat(e, NT))
                            \/ RangeOf(e.g) # RangeOf(Flat(e, NT))}
  \cup {q \in {"Identity"}: e.bad # <<>>}

Init == i = 2 /\ S = [t \in 0..NT - 1 |-> <<>>]
Next ==
  /\ i <= Len(Log)
  /\ Broken(Log[i]) # {} => PrintT(<<"VIOL", i, Log[i].op, Broken(Log[i])>>)
  /\ S' = Seen(Log[i])
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)
Spec == Init /\ [][Next]_<<i, S>>
=============================================================================
