------------------------------ MODULE TraceProc ------------------------------
(* Trace validation of process runs                                          *)
EXTENDS Proc, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
RunF(h,o) == FoldLeft(LAMBDA a,j : IF a.bad # 0 THEN a
                                   ELSE IF h[j][1] = "file" THEN [a EXCEPT !.fs = POp(a.fs,h[j])]
                                   ELSE LET s == Main(a.fs,h[j][2],h[j][3]) IN [a EXCEPT !.bad = IF PAgree(s,o[j]) THEN 0 ELSE j, !.e = <<s.code,s.raw,s.errs,s.eraw,s.nc>>],
                      [fs |-> X0.fs, bad |-> 0, e |-> NC], <<>> \o [j \in 1..Len(h) |-> j])
OkRun(h,o) == IF Len(o) # Len(h) THEN FALSE ELSE LET e == RunF(h,o) IN e.bad = 0 \/ PrintT(<<"AT",e.bad,e.e>>) = FALSE
OkLine(r) == \A i \in 1..Len(r.o) : OkRun(r.h,r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
