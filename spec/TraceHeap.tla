----------------------------- MODULE TraceHeap -----------------------------
(* Trace validation of heap histories: [h |-> operations, o |-> observed     *)
(* sequences of responses]                                                   *)
EXTENDS Heap, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
Bad0 == 0
\* the index of the first response that does not fit
RunH(h,o) == FoldLeft(LAMBDA a,j : IF a.bad # 0 THEN a ELSE LET s == HOp(a.s,h[j]) IN [s |-> s, bad |-> IF RespFits(s,h[j],o[j],o[1]) THEN 0 ELSE j], [s |-> H0, bad |-> 0], <<>> \o [j \in 1..Len(h) |-> j])
OkRun(h,o) == IF Len(o) # Len(h) THEN FALSE ELSE LET e == RunH(h,o) IN e.bad = 0 \/ PrintT(<<"AT",e.bad,<<Cardinality(e.s.live)>>>>) = FALSE
OkLine(r) == \A i \in 1..Len(r.o) : OkRun(r.h,r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
