------------------------------ MODULE TraceMap ------------------------------
(* Trace validation of map histories: [h |-> operations, o |-> observed      *)
(* sequences of responses]                                                   *)
EXTENDS Map, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
RespOk(e,o) == IF e[1] = 7 THEN o[1] = 7 ELSE e = o
OkLine(r) == r.o = <<>> \/ LET e == Hist(r.h) IN \A i \in 1..Len(r.o) : Len(r.o[i]) = Len(e) /\ \A j \in 1..Len(e) : RespOk(e[j],r.o[i][j]) \/ PrintT(<<"AT",j,e[j]>>) = FALSE
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
