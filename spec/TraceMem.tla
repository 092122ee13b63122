------------------------------ MODULE TraceMem ------------------------------
(* Memory of applications: h is <<term, left, right, mode>>.                 *)
(* "leak": the application is made four times, its result let go each time;  *)
(*   o is <<first outcome, last outcome, d3, d4>> where d3 and d4 are the    *)
(*   memory in use after the third and fourth, less that after the second.   *)
(* "oom": the application is made when nearly all memory up to the limit is  *)
(*   taken: three times <<outcome, whether all other values are intact,      *)
(*   outcome of the same application with the limit lifted>>                 *)
EXTENDS BQN, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
NBlk == 64
VARIABLE l
OutOfMem == <<1,1114000>>
\* functions that work out a fill by applying their operand: an error in there is abandoned until the next collection at top level
RECURSIVE MayTryFill(_)
MayTryFill(t) == CASE t.k = "m1" -> t.n \in {"each","cells","table","insert"} \/ MayTryFill(t.f)
  [] t.k = "m2" -> t.n \in {"rank","depth","under","repeat"} \/ MayTryFill(t.f) \/ MayTryFill(t.g)
  [] t.k = "t2" -> MayTryFill(t.g) \/ MayTryFill(t.h)
  [] t.k = "t3" -> MayTryFill(t.f) \/ MayTryFill(t.g) \/ MayTryFill(t.h)
  [] t.k = "fl" -> \E i \in 1..Len(t.fs) : MayTryFill(t.fs[i])
  [] OTHER -> FALSE
\* an error caught on the way abandons what it interrupted as well
RECURSIVE Catches(_)
Catches(t) == CASE t.k = "m1" -> Catches(t.f)
  [] t.k = "m2" -> t.n = "catch" \/ Catches(t.f) \/ Catches(t.g)
  [] t.k = "t2" -> Catches(t.g) \/ Catches(t.h)
  [] t.k = "t3" -> Catches(t.f) \/ Catches(t.g) \/ Catches(t.h)
  [] t.k = "fl" -> \E i \in 1..Len(t.fs) : Catches(t.fs[i])
  [] OTHER -> FALSE
RECURSIVE AnyEmpty(_)
AnyEmpty(v) == IsArr(v) /\ (v[3] = <<>> \/ \E i \in 1..Len(v[3]) : AnyEmpty(v[3][i]))
LeakOk(h,o) == LET e == Ap(h[1],h[2],h[3]) IN
  /\ Agree(e,o[1]) /\ Agree(e,o[2])
  /\ o[1] = ERR \/ e = ERR \/ Catches(h[1]) \/ (o[3] = <<0,0>> /\ o[4] = <<0,0>>) \/ (MayTryFill(h[1]) /\ (AnyEmpty(h[2]) \/ AnyEmpty(h[3]) \/ AnyEmpty(o[1])))
OomOk(h,o) == LET e == Ap(h[1],h[2],h[3]) IN
  \A k \in 0..2 :
    /\ o[3*k+1] = OutOfMem \/ (e # ERR /\ Agree(e,o[3*k+1]))
    /\ o[3*k+2] = <<0,1>>
    /\ Agree(e,o[3*k+3])
Unsup(o) == \E i \in 1..Len(o) : o[i] = <<4>>
OkOne(h,o) == IF o = <<>> THEN TRUE ELSE IF Len(o) = 1 THEN FALSE ELSE Unsup(o) \/ IF h[4] = "leak" THEN LeakOk(h,o) ELSE OomOk(h,o)
OkLine(r) == \A i \in 1..Len(r.o) : OkOne(r.h,r.o[i])
Init == l = 0
Next == \/ l = 0 /\ l' \in {-c : c \in 1..NBlk}
        \/ l < 0 /\ l' \in {i \in 1..Len(T) : i % NBlk = (-l) % NBlk}
Inv == l > 0 => (PrintT(<<"B", l>>) /\ (OkLine(T[l]) \/ PrintT(<<"REJECT", l>>)) /\ PrintT(<<"E", l>>))
=============================================================================
