---------------------------- MODULE CursorTrace -----------------------------
(* validates answers of the real iterators against Cursor *)
EXTENDS Cursor, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VLOG)
VARIABLE i
Init == i = 2
Bad(e) ==
  (IF e.r # Answer(e.op, e.n, e.p, e.q) THEN {"Answer"} ELSE {})
  \cup (IF ~Enabled(e.op, e.n, e.p, e.q) THEN {"NotEnabled"} ELSE {})
Next ==
  /\ i <= Len(Log)
  /\ LET e == Log[i] IN Bad(e) # {} => PrintT(<<"VIOL", i, e.op, Bad(e)>>)
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)
Spec == Init /\ [][Next]_i
=============================================================================
