------------------------------ MODULE TraceEnv ------------------------------
(* Trace validation of sessions                                              *)
EXTENDS Env, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
\* every response; <<index of the first response that does not fit, what was expected>>
RunF(h,o) == FoldLeft(LAMBDA a,j : IF a.bad # 0 THEN a ELSE LET q == XOp(a.s,h[j]) IN [s |-> q[2], bad |-> IF XAgree(q[1],q[2],o[j]) THEN 0 ELSE j, e |-> <<q[1],q[2].out>>],
                      [s |-> X0, bad |-> 0, e |-> NC], <<>> \o [j \in 1..Len(h) |-> j])
OkRun(h,o) == IF Len(o) # Len(h) THEN FALSE ELSE LET e == RunF(h,o) IN e.bad = 0 \/ PrintT(<<"AT",e.bad,e.e>>) = FALSE
OkLine(r) == \A i \in 1..Len(r.o) : OkRun(r.h,r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
