------------------------------- MODULE Pipe -------------------------------
(* A process and the caller's loop over the three pipes, in every            *)
(* interleaving: whatever the schedule, the caller ends with what PipeFn     *)
(* predicts.  CAP is the capacity of a pipe.                                 *)
EXTENDS PipeFn, FiniteSets, TLC
CONSTANTS CAP, MAXLEN, AMTS, INPUTS, OLD
Ops == {<<o,k>> : o \in {"r","o","e","E"}, k \in AMTS} \cup {<<"R",0>>,<<"c",0>>,<<"c",1>>,<<"c",2>>,<<"x",3>>,<<"k",9>>}
\* a process left behind writes last
Scripts == UNION {[1..m -> Ops] : m \in 0..MAXLEN}
With == Scripts \cup {Append(s,<<"g",CHOOSE k \in AMTS : TRUE>>) : s \in {s \in Scripts : Len(s) < MAXLEN}}
VARIABLES sc, n, pc, done, hold, pin, pout, perr, open, left, alive, code, rd, on, en, ph, rev, ino, fdo, fde, off, got, gote, bad
vars == <<sc,n,pc,done,hold,pin,pout,perr,open,left,alive,code,rd,on,en,ph,rev,ino,fdo,fde,off,got,gote,bad>>
Init == /\ sc \in With /\ n \in INPUTS
        /\ pc = 1 /\ done = 0 /\ hold = <<>> /\ pin = <<>> /\ pout = <<>> /\ perr = <<>> /\ open = <<TRUE,TRUE,TRUE>> /\ left = 0 /\ alive = TRUE /\ code = -1
        /\ rd = 0 /\ on = 0 /\ en = 0 /\ ph = "poll" /\ rev = <<>> /\ ino = TRUE /\ fdo = TRUE /\ fde = TRUE /\ off = 0 /\ got = <<>> /\ gote = <<>> /\ bad = FALSE
\* the process
Rdr == alive /\ open[1]
OutW == (alive /\ open[2]) \/ left > 0
ErrW == alive /\ open[3]
Advance == pc' = pc+1 /\ done' = 0
Parent == <<ph,rev,ino,fdo,fde,off,got,gote>>
Ends(c) == alive' = FALSE /\ code' = c /\ UNCHANGED <<sc,n,pc,done,hold,pin,pout,perr,open,left,rd,on,en,bad>> /\ UNCHANGED Parent
ReadOne == /\ pin # <<>> /\ bad' = (bad \/ pin[1] # rd) /\ pin' = Tail(pin) /\ rd' = rd+1
Eof == pin = <<>> /\ ~ino
Child ==
  /\ alive
  /\ IF pc > Len(sc) THEN Ends(0)
     ELSE LET op == sc[pc] IN
       CASE op[1] = "x" -> Ends(op[2])
         [] op[1] = "k" -> Ends(128+op[2])
         [] op[1] = "c" -> Advance /\ open' = [open EXCEPT ![op[2]+1] = FALSE] /\ UNCHANGED <<sc,n,hold,pin,pout,perr,left,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
         [] op[1] = "g" -> /\ Advance /\ left' = (IF open[2] THEN op[2] ELSE 0) /\ UNCHANGED <<sc,n,hold,pin,pout,perr,open,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
         [] op[1] \in {"r","R","E"} ->
              IF ~open[1] \/ (op[1] # "R" /\ done = op[2] /\ hold = <<>>) \/ (Eof /\ hold = <<>>) THEN Advance /\ UNCHANGED <<sc,n,hold,pin,pout,perr,open,left,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
              ELSE IF hold # <<>> THEN \* copied byte to be written
                   /\ (~open[2] \/ Len(pout) < CAP)
                   /\ pout' = (IF open[2] THEN Append(pout,<<"i",hold[1]>>) ELSE pout) /\ hold' = <<>> /\ UNCHANGED <<sc,n,pc,done,pin,perr,open,left,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
              ELSE /\ ReadOne /\ done' = done+1 /\ hold' = (IF op[1] = "E" THEN <<rd>> ELSE <<>>) /\ UNCHANGED <<sc,n,pc,pout,perr,open,left,alive,code,on,en>> /\ UNCHANGED Parent
         [] op[1] = "o" -> IF done = op[2] \/ ~open[2] THEN Advance /\ UNCHANGED <<sc,n,hold,pin,pout,perr,open,left,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
                           ELSE /\ Len(pout) < CAP /\ pout' = Append(pout,<<"o",on>>) /\ on' = on+1 /\ done' = done+1 /\ bad' = (bad \/ ph \in {"wait","fin"}) /\ UNCHANGED <<sc,n,pc,hold,pin,perr,open,left,alive,code,rd,en>> /\ UNCHANGED Parent
         [] op[1] = "e" -> IF done = op[2] \/ ~open[3] THEN Advance /\ UNCHANGED <<sc,n,hold,pin,pout,perr,open,left,alive,code,rd,on,en,bad>> /\ UNCHANGED Parent
                           ELSE /\ Len(perr) < CAP /\ perr' = Append(perr,<<"e",en>>) /\ en' = en+1 /\ done' = done+1 /\ bad' = (bad \/ ph \in {"wait","fin"}) /\ UNCHANGED <<sc,n,pc,hold,pin,pout,open,left,alive,code,rd,on>> /\ UNCHANGED Parent
Later == /\ left > 0 /\ Len(pout) < CAP /\ pout' = Append(pout,<<"o",on>>) /\ on' = on+1 /\ left' = left-1 /\ bad' = (bad \/ ph \in {"wait","fin"})
         /\ UNCHANGED <<sc,n,pc,done,hold,pin,perr,open,alive,code,rd,en>> /\ UNCHANGED Parent
---------------------------------------------------------------------------
Kid == <<sc,n,pc,done,hold,open,left,alive,code,rd,on,en,bad>>
ROut == IF ~fdo THEN {} ELSE (IF pout # <<>> THEN {"in"} ELSE {}) \cup (IF ~OutW THEN {"hup"} ELSE {})
RErr == IF ~fde THEN {} ELSE (IF perr # <<>> THEN {"in"} ELSE {}) \cup (IF ~ErrW THEN {"hup"} ELSE {})
RIn == IF ~ino THEN {} ELSE (IF Len(pin) < CAP THEN {"out"} ELSE {}) \cup (IF ~Rdr THEN {"err"} ELSE {})
Poll == /\ ph = "poll" /\ (ROut # {} \/ RErr # {} \/ RIn # {}) /\ rev' = <<ROut,RErr,RIn>> /\ ph' = "out" /\ UNCHANGED Kid /\ UNCHANGED <<pin,pout,perr,ino,fdo,fde,off,got,gote>>
DrainOut == /\ ph = "out" /\ IF "in" \in rev[1] /\ pout # <<>> THEN got' = Append(got,pout[1]) /\ pout' = Tail(pout) /\ ph' = ph ELSE ph' = "err" /\ UNCHANGED <<got,pout>>
            /\ UNCHANGED Kid /\ UNCHANGED <<pin,perr,rev,ino,fdo,fde,off,gote>>
DrainErr == /\ ph = "err" /\ IF "in" \in rev[2] /\ perr # <<>> THEN gote' = Append(gote,perr[1]) /\ perr' = Tail(perr) /\ ph' = ph ELSE ph' = "in" /\ UNCHANGED <<gote,perr>>
            /\ UNCHANGED Kid /\ UNCHANGED <<pin,pout,rev,ino,fdo,fde,off,got>>
Write == /\ ph = "in" /\ ph' = "end"
         /\ IF ino /\ rev[3] # {} THEN
              IF ~Rdr THEN ino' = FALSE /\ UNCHANGED <<pin,off>>          \* the reader is gone
              ELSE LET k == Min2(n-off,CAP-Len(pin)) IN /\ pin' = pin \o [i \in 1..k |-> off+i-1] /\ off' = off+k /\ ino' = (off+k # n)
            ELSE UNCHANGED <<pin,off,ino>>
         /\ UNCHANGED Kid /\ UNCHANGED <<pout,perr,rev,fdo,fde,got,gote>>
\* OLD: leaves the loop as soon as both outputs are closed
End == /\ ph = "end" /\ LET ho == "hup" \in rev[1] \/ ~fdo he == "hup" \in rev[2] \/ ~fde IN
            IF ho /\ he /\ (OLD \/ ~ino) THEN ph' = "wait" /\ ino' = FALSE /\ fdo' = FALSE /\ fde' = FALSE
            ELSE ph' = "poll" /\ fdo' = ~ho /\ fde' = ~he /\ ino' = ino
       /\ UNCHANGED Kid /\ UNCHANGED <<pin,pout,perr,rev,off,got,gote>>
Wait == ph = "wait" /\ ~alive /\ ph' = "fin" /\ UNCHANGED Kid /\ UNCHANGED <<pin,pout,perr,rev,ino,fdo,fde,off,got,gote>>
Caller == Poll \/ DrainOut \/ DrainErr \/ Write \/ End \/ Wait
Fin == ph = "fin" /\ UNCHANGED vars
Next == Child \/ Later \/ Caller \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Child) /\ WF_vars(Later) /\ WF_vars(Caller)
Bytes(q) == FoldLeft(LAMBDA a,r : a \o [i \in 1..r[3] |-> <<r[1],r[2]+i-1>>],<<>>,q)
Inv == ~bad /\ (ph = "fin" => LET p == Predict(sc,n) IN code = p[1] /\ got = Bytes(p[2]) /\ gote = Bytes(p[3]) /\ rd = p[4])
Ends_ == <>(ph = "fin")
=============================================================================
