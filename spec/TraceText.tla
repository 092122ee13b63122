----------------------------- MODULE TraceText -----------------------------
(* Trace validation of conversions: [h |-> operations, o |-> observed        *)
(* sequences of responses]                                                   *)
EXTENDS Text, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
OkLine(r) == \A i \in 1..Len(r.o) : Len(r.o[i]) = Len(r.h) /\ \A j \in 1..Len(r.h) : Answers(r.h[j],r.o[i][j]) \/ PrintT(<<"AT",j,Expected(r.h[j])>>) = FALSE
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
