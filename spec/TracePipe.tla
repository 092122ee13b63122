------------------------------ MODULE TracePipe -----------------------------
(* Recorded histories of •SH calls: what each process wrote and read, how it *)
(* ended, and that nothing of it is left: no open descriptors, no children,  *)
(* signals handled as before.                                                *)
EXTENDS PipeFn, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
Clean == <<0,0,0>>
EncU(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192+c \div 64,128+(c % 64)>> ELSE IF c < 65536 THEN <<224+c \div 4096,128+((c \div 64) % 64),128+(c % 64)>>
           ELSE <<240+c \div 262144,128+((c \div 4096) % 64),128+((c \div 64) % 64),128+(c % 64)>>
Utf8P(s) == FoldLeft(LAMBDA a,c : a \o EncU(c),<<>>,s)
Expect(op) ==
  CASE op[1] = "sh" -> LET n == IF op[6] = <<>> THEN op[4] ELSE Len(Utf8P(op[6])) p == Predict(op[2],n) IN <<p[1],p[2],p[3],IF p[4] = 0 THEN <<>> ELSE <<<<"i",0,p[4]>>>>,Clean>>
    [] op[1] = "args" -> <<0,[i \in 1..Len(op[2]) |-> Utf8P(op[2][i])],<<>>,Clean>>
    [] op[1] = "path" -> <<op[2][1],op[2][2],op[2][3],Clean>>
    [] OTHER -> <<9,Clean>>
OpOf(op) == IF op[1] = "path" THEN <<"path",op[3]>> ELSE op
RunOk(j,h,o) == Len(o) = Len(h) /\ \A i \in 1..Len(h) : o[i] = Expect(OpOf(h[i])) \/ (PrintT(<<"AT",i,Expect(OpOf(h[i]))>>) /\ FALSE)
OkLine(r) == \A k \in 1..Len(r.o) : RunOk(k,r.h,r.o[k])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
