------------------------------ MODULE TraceRand -----------------------------
EXTENDS Rand, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
OkLine(r) == r.o = <<>> \/ RHistOk(r.h,r.o)
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
