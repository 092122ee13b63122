------------------------------ MODULE TraceFn ------------------------------
(* Trace validation of function applications.  Each line of the trace is     *)
(*   [t |-> term, w |-> left value or NOW, x |-> value, o |-> outcomes]      *)
(* where o is the set of outcomes that the real interpreter gave for this    *)
(* application over all the representations it was tried with.  Every one    *)
(* of them must be what the specification says; where the specification      *)
(* makes no claim they must still be all the same.                           *)
EXTENDS BQN, Json, IOUtils
TraceFile == IOEnv.TRACE
T == ndJsonDeserialize(TraceFile)
NBlk == 64
VARIABLE l

Expect(r) == Ap(r.t, r.w, r.x)
\* no outcome at all: the build has no runtime library to provide this case
OkLine(r) == r.o = <<>> \/ LET e == Expect(r) IN Len(r.o) = 1 /\ Agree(e, r.o[1])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
\* reporting all the failures: the invariant always holds, the printed lines are the verdict
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
