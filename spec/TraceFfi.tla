------------------------------ MODULE TraceFfi ------------------------------
(* Recorded histories of native function definitions, calls and pointer use   *)
(* against spec/Ffi.tla.                                                      *)
EXTENDS Ffi, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
RECURSIVE Mt(_,_)
Mt(e,o) == IF e = NC THEN TRUE ELSE IF e[1] # o[1] THEN FALSE
  ELSE IF e[1] # 2 THEN e = o ELSE e[2] = o[2] /\ Len(e[3]) = Len(o[3]) /\ \A i \in 1..Len(e[3]) : Mt(e[3][i],o[3][i])
MtBytes(e,o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : e[i] \notin 0..255 \/ e[i] = o[i]
\* o: the bytes, and those of the address of memory
MtMem(e,o) == Len(e) = Len(o[1]) /\ \A i \in 1..Len(e) : e[i] < 0 \/ o[1][i] = (IF e[i] < 1000 THEN e[i] ELSE Pad(BAdd(o[2],BigOf((e[i]-1000) \div 8)),8)[((e[i]-1000) % 8)+1])
RECURSIVE Seen(_)
Seen(v) == IF v[1] = 7 /\ v[2] >= 1000 THEN <<7,106>> ELSE IF v[1] = 2 THEN <<2,v[2],<<>> \o [i \in 1..Len(v[3]) |-> Seen(v[3][i])]>> ELSE v   \* pointer objects are namespaces
MtSeg(e,o) == e[1] = o[1] /\ CASE e[1] = "c" -> MtBytes(e[2],o[2]) [] e[1] = "a" -> Seen(e[2]) = o[2] [] e[1] = "m" -> e[2] = o[2] [] OTHER -> TRUE
MtCall(e,o) == Len(o) = 3 /\ e[1] = o[1] /\ Len(e[2]) = Len(o[2])
  /\ (\A i \in 1..Len(e[2]) : MtBytes(e[2][i][1],o[2][i][1]) /\ Len(e[2][i][2]) = Len(o[2][i][2]) /\ \A k \in 1..Len(e[2][i][2]) : MtSeg(e[2][i][2][k],o[2][i][2][k]))
  /\ Mt(e[3],o[3])
Match(op,e,o) == CASE op[1] = "call" -> MtCall(e,o) [] op[1] = "mem" -> MtMem(e,o) [] OTHER -> Mt(e,o)
RunOk(h,o) ==
  Len(o) = Len(h) /\
  LET r == FoldLeft(LAMBDA a,i : IF ~a[2] THEN a ELSE LET s == FfiStep(a[1],h[i]) IN <<s[1],Match(h[i],s[2],o[i]) \/ (PrintT(<<"AT",i,s[2]>>) /\ FALSE)>>,
                    <<FfiInit,TRUE>>,[i \in 1..Len(h) |-> i]) IN r[2]
OkLine(r) == \A k \in 1..Len(r.o) : RunOk(r.h,r.o[k])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
