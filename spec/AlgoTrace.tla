----------------------------- MODULE AlgoTrace ------------------------------
(* Validates the outcomes and type restitutions recorded by harness/algo.cpp *)
EXTENDS Algo, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
VARIABLE i
Init == i = 1
OkLine(r) ==
  IF r.k = "t" THEN Right(r.alg, r.p, r.s, r.q, r.o) /\ CallsOk(r.alg, r.p, r.s, r.q, r.c)
  ELSE RightType(r)
Next ==
  /\ i <= Len(Log)
  /\ ~OkLine(Log[i]) => PrintT(<<"VIOL", i, Log[i].alg, {Log[i].k}>>)
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)
Spec == Init /\ [][Next]_i
=============================================================================
