----------------------------- MODULE PolyTrace ------------------------------
(***************************************************************************)
(* Trace validation: every event recorded from the real code must be a     *)
(* transition allowed by PolySpec. After a mismatch checking resumes from  *)
(* the recorded state.                                                     *)
(***************************************************************************)
EXTENDS PolySpec, Json, IOUtils

Prop  == IOEnv.VPROP
Log   == ndJsonDeserialize(IOEnv.VLOG)
Hdr   == Log[1]
Bit(x, b) == (x \div b) % 2 = 1
Ty(t, k) == Hdr.ty[t + 1][k] = 1

TCopyable(t)    == Ty(t, 1)
TComparable(t)  == Ty(t, 2)
TNothrowMove(t) == Ty(t, 4)
TTracked(t)     == Ty(t, 5)
TSelfType(t)    == Hdr.kind = 1 /\ t = 4
TPocca    == Bit(Hdr.alf, 1)
TPocma    == Bit(Hdr.alf, 2)
TPocs     == Bit(Hdr.alf, 4)
TAlwaysEq == Bit(Hdr.alf, 8)
TSoccc    == Bit(Hdr.alf, 16)
TMaxSize  == Hdr.mx

VARIABLE i

Init == i = 2

Report(k, V) ==
  /\ V # {} => PrintT(<<"VIOL", k, Log[k].op, V>>)
  /\ (Log[k].op # "reset" /\ ~HandlesExamined(Log[k], Log[k - 1].st)) =>
       PrintT(<<"BADHANDLES", k>>)

(* the state before a reset is irrelevant; the header carries no state *)
Next ==
  /\ i <= Len(Log)
  /\ LET e == Log[i]
         pre == IF e.op = "reset" THEN e.st ELSE Log[i - 1].st IN
     Report(i, Violated(Prop, e, pre, e.st))
  /\ i' = i + 1
  /\ i = Len(Log) => PrintT(<<"DONE", Len(Log)>>)

Spec == Init /\ [][Next]_i
=============================================================================
