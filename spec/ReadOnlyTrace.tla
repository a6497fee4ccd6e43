--------------------------- MODULE ReadOnlyTrace ----------------------------
(***************************************************************************)
(* Read-only operations are stuttering steps at the level of memory: the   *)
(* recorded digests of the collections (registered types, traversal order, *)
(* elements, capacities and addresses) before and after must be the same,  *)
(* no write to protected memory may have happened, and the result must be  *)
(* the one obtained when the same operation is repeated.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
VARIABLE i
Init == i = 1

Broken(r) ==
     {c \in {"NoWrite"}     : r.wr # 0}
  \cup {c \in {"SameSelf"}  : r.d0 # r.d1}
  \cup {c \in {"SameOther"} : r.e0 # r.e1}
  \cup {c \in {"SameResult"}: r.got # r.want}

Next ==
  /\ i <= Len(Log)
  /\ LET r == Log[i] IN Broken(r) # {} => PrintT(<<"VIOL", i, r.op, Broken(r)>>)
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)
Spec == Init /\ [][Next]_i
=============================================================================
