----------------------------- MODULE TraceCalls -----------------------------
(* Trace validation of the calls that applications make: each line is        *)
(* [t |-> term, w, x, r |-> results of the calls, o |-> observations], an    *)
(* observation being <<outcome, sequence of calls <<id,w,x>> >>.             *)
EXTENDS Calls, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
OkLine(r) == r.o = <<>> \/ LET e == L(r.t, r.w, r.x, [r |-> r.r, log |-> <<>>, pre |-> FALSE, err |-> <<>>]) IN \A i \in 1..Len(r.o) : AgreeL(e, r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
