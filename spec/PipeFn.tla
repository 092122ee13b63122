------------------------------- MODULE PipeFn -------------------------------
(* What running a scripted process with n bytes of input must give.          *)
(* Script steps: <<"r",k>> read k bytes or to the end, <<"R",0>> read to the *)
(* end, <<"o",k>> <<"e",k>> write k bytes, <<"E",k>> copy k bytes from input *)
(* to output, <<"c",f>> close, <<"g",k>> leave a process behind that writes  *)
(* k bytes to the output later, <<"s",ms>> wait, <<"x",c>> exit, <<"k",s>>   *)
(* die by a signal.                                                          *)
(* Streams are sequences of runs <<name,from,length>>: "i" the input, "o"    *)
(* and "e" what the process makes itself.                                    *)
EXTENDS Integers, Sequences, SequencesExt
AddRun(q,n,from,k) == IF k = 0 THEN q
                      ELSE IF q # <<>> /\ q[Len(q)][1] = n /\ q[Len(q)][2]+q[Len(q)][3] = from THEN [q EXCEPT ![Len(q)] = <<n,@[2],@[3]+k>>]
                      ELSE Append(q,<<n,from,k>>)
Min2(a,b) == IF a < b THEN a ELSE b
Start == [rd |-> 0, o |-> <<>>, e |-> <<>>, on |-> 0, en |-> 0, open |-> <<TRUE,TRUE,TRUE>>, code |-> -1]
Step(s,op,n) ==
  IF s.code # -1 THEN s
  ELSE CASE op[1] = "r" -> IF s.open[1] THEN [s EXCEPT !.rd = Min2(n,@+op[2])] ELSE s
         [] op[1] = "R" -> IF s.open[1] THEN [s EXCEPT !.rd = n] ELSE s
         [] op[1] = "E" -> IF s.open[1] THEN LET k == Min2(n-s.rd,op[2]) IN [s EXCEPT !.rd = @+k, !.o = IF s.open[2] THEN AddRun(@,"i",s.rd,k) ELSE @] ELSE s
         [] op[1] \in {"o","g"} -> IF s.open[2] THEN [s EXCEPT !.o = AddRun(@,"o",s.on,op[2]), !.on = @+op[2]] ELSE s
         [] op[1] = "e" -> IF s.open[3] THEN [s EXCEPT !.e = AddRun(@,"e",s.en,op[2]), !.en = @+op[2]] ELSE s
         [] op[1] = "c" -> [s EXCEPT !.open[op[2]+1] = FALSE]
         [] op[1] = "x" -> [s EXCEPT !.code = op[2]]
         [] op[1] = "k" -> [s EXCEPT !.code = 128+op[2]]
         [] OTHER -> s
\* <<exit code, output, error output, bytes of input read>>
Predict(sc,n) == LET f == FoldLeft(LAMBDA s,op : Step(s,op,n),Start,sc) IN <<IF f.code = -1 THEN 0 ELSE f.code,f.o,f.e,f.rd>>
=============================================================================
