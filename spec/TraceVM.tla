------------------------------ MODULE TraceVM ------------------------------
(* Trace validation of whole programs: each line is [p |-> program, r |->     *)
(* results of the user functions' calls, o |-> observations <<outcome, log>>] *)
EXTENDS Calls, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
OkLine(r) == r.o = <<>> \/ LET e == Program(r.p, r.r) IN \A i \in 1..Len(r.o) : AgreeL(e, r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
