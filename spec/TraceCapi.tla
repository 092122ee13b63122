------------------------------ MODULE TraceCapi ------------------------------
(* Recorded histories of the embedding interface against spec/Capi.tla.       *)
EXTENDS Capi, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
RunOk(h,o) ==
  Len(o) = Len(h) /\
  LET r == FoldLeft(LAMBDA a,i : IF ~a[2] THEN a ELSE LET s == CStep(a[1],h[i]) IN <<s[1],CMatch(s[1],h[i],s[2],o[i]) \/ (PrintT(<<"AT",i,s[2]>>) /\ FALSE)>>,
                    <<CInit,TRUE>>,[i \in 1..Len(h) |-> i]) IN r[2]
OkLine(r) == \A k \in 1..Len(r.o) : RunOk(r.h,r.o[k])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================

