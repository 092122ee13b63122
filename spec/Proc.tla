------------------------------- MODULE Proc -------------------------------
(* A run of the executable: its arguments, the lines of its standard input,  *)
(* and the files around it; to its standard output and error and exit status *)
(* Arguments: <<"a",codepoints>> and <<"t",text>>.  Output is a sequence of  *)
(* pieces: bytes, or ANYL (something up to the end of the line), or ANY.     *)
EXTENDS Env
ANYL == <<-1>>
ANY == <<-2>>
Say(s,b) == [s EXCEPT !.raw = Append(@,b)]
Stop(s,c) == [s EXCEPT !.code = c]
Stopped(s) == s.code # -1
\* an error that is not caught, by its message, or a request to exit
Raise(s,v) == IF v[1] = "X" THEN Stop(s,v[2]) ELSE Stop([s EXCEPT !.errs = Append(@,v[2])],1)
---------------------------------------------------------------------------
(* printing                                                                  *)
NOSHOW == <<-9>>
RECURSIVE NumCps(_)
NumCps(n) == IF n < 0 THEN <<175>> \o NumCps(-n) ELSE IF n < 10 THEN <<48+n>> ELSE NumCps(n \div 10) \o <<48+(n % 10)>>
RECURSIVE ShowV(_)
ShowV(v) == CASE v[1] = "n" -> NumCps(v[2])
              [] v[1] = "c" -> IF v[2] >= 32 THEN <<39,v[2],39>> ELSE NOSHOW
              [] v[1] = "s" -> IF v[2] = <<>> THEN <<10216,10217>> ELSE IF \A i \in 1..Len(v[2]) : v[2][i] >= 32 THEN <<34>> \o v[2] \o <<34>> ELSE NOSHOW
              [] v[1] = "l" -> IF \E i \in 1..Len(v[2]) : v[2][i][1] \in {"c","ch"} THEN NOSHOW
                               ELSE LET q == <<>> \o [i \in 1..Len(v[2]) |-> ShowV(v[2][i])] IN
                                 IF \E i \in 1..Len(q) : q[i] = NOSHOW THEN NOSHOW
                                 ELSE <<10216>> \o FoldLeft(LAMBDA a,i : a \o (IF i = 1 THEN <<>> ELSE <<44,32>>) \o q[i],<<>>,<<>> \o [i \in 1..Len(q) |-> i]) \o <<10217>>
              [] OTHER -> NOSHOW
ShowLine(s,v) == LET q == ShowV(v) IN IF q = NOSHOW THEN Say(Say(s,ANYL),<<10>>) ELSE Say(s,Utf8C(q) \o <<10>>)
\* a value printed as it is
RawLine(s,v) == CASE v[1] = "s" -> Say(s,Utf8C(v[2]) \o <<10>>)
                  [] v[1] = "l" -> IF v[2] = <<>> THEN Say(s,<<10>>) ELSE IF \A i \in 1..Len(v[2]) : v[2][i][1] = "c" THEN Say(s,Utf8C(MapS(v[2],LAMBDA q : q[2])) \o <<10>>)
                                   ELSE IF \E i \in 1..Len(v[2]) : v[2][i][1] \in {"ch","u"} THEN [s EXCEPT !.nc = TRUE] ELSE Raise(s,XE)
                  [] v[1] = "tx" -> Say(Say(s,ANYL),<<10>>)
                  [] v[1] = "u" -> [s EXCEPT !.nc = TRUE]
                  [] OTHER -> Raise(s,XE)
---------------------------------------------------------------------------
(* texts                                                                     *)
NameE == <<40,45,101,41>>
NameP == <<40,45,112,41>>
NameO == <<40,45,111,41>>
NameStdin == <<40,115,116,100,105,110,41>>
Here == PathText(<<RNAME>>)
\* characters that no text begins with cannot be a text
Junk(c) == IF \E i \in 1..Len(c) : c[i] \in {34,91,123,0} THEN <<"u">> ELSE <<"bad">>
AsText(a) == IF a[1] = "t" THEN <<"ok",a[2]>> ELSE Junk(a[2])
\* run a text in the global scope: <<state, value or "E" or "X">>
RunG(s0,tx,name,args) ==
  LET s == [s0 EXCEPT !.fuel = Fuel] IN
  IF tx[1] = "u" THEN XNc(s) ELSE IF tx[1] = "bad" THEN <<s,XE>> ELSE XText(s,tx[2],1,<<Here,name,args>>,TRUE)
\* what follows of the value
Do(r,f(_,_)) == IF r[1].nc THEN r[1] ELSE IF IsXE(r) THEN Raise(r[1],r[2]) ELSE f(r[1],r[2])
---------------------------------------------------------------------------
(* files                                                                     *)
ParentC(c) == LET S == {i \in 1..(Len(c)-1) : c[i] = SLASH} IN IF S = {} THEN IF AbsP(c) THEN c ELSE <<46,SLASH>> ELSE SubSeq(c,1,CHOOSE i \in S : \A j \in S : j <= i)
NameC(c) == LET S == {i \in 1..Len(c) : c[i] = SLASH} IN IF S = {} THEN c ELSE SubSeq(c,1+CHOOSE i \in S : \A j \in S : j <= i,Len(c))
RunFile(s0,c,args) ==
  LET s == [s0 EXCEPT !.fuel = Fuel] f == Find(s.fs,RelP(Here,c),TRUE) IN
  IF c = <<>> \/ c[Len(c)] = SLASH THEN <<s,XE>>
  ELSE IF f[1] = "out" THEN XNc(s)
  ELSE IF f[1] # "ok" THEN <<s,XE>>
  ELSE IF Kind(s.fs,f[2]) # "f" THEN <<s,XE>>
  ELSE XText(s,s.fs[f[2]][2],1,<<ParentC(c),NameC(c),args>>,FALSE)
---------------------------------------------------------------------------
(* the prompt loop                                                           *)
Prompt == <<32,32,32>>
RLine(s0,t,show) == LET r == RunG(s0,<<"ok",t>>,ReplName,XEmpty)
                        new == SelectSeq(XDefsL(t[1]),LAMBDA n : n \notin DOMAIN s0.scs[1].v /\ n \in DOMAIN r[1].scs[1].v)
                        s1 == [r[1] EXCEPT !.err = <<>>, !.order = @ \o new]
                   IN IF r[1].nc THEN r[1] ELSE IF r[2][1] = "X" THEN Stop(s1,r[2][2]) ELSE IF IsXE(r) THEN [s1 EXCEPT !.errs = Append(@,r[2][2])] ELSE IF show THEN ShowLine(s1,r[2]) ELSE s1
Cmd(c) == SubSeq(c,2,Len(c))
CExit == <<101,120,105,116>>
COff == <<111,102,102>>
CVars == <<118,97,114,115>>
CGc == <<103,99>>
Unknown == <<85,110,107,110,111,119,110,32,82,69,80,76,32,99,111,109,109,97,110,100,10>>
\* the order of variables is that of their first lines
RCmd(s,c) == CASE c \in {CExit,COff} -> Stop(s,0)
               [] c = CGc -> s
               [] c = CVars -> IF s.order = <<>> THEN Say(s,<<10>>) ELSE Say(Say(s,ANYL),<<10>>)
               [] Len(c) >= 1 /\ c[1] \in {110,113,122} -> Say(s,Unknown)
               [] OTHER -> [s EXCEPT !.nc = TRUE]
RECURSIVE Repl(_,_)
Repl(s0,silent) ==
  LET s == IF silent THEN s0 ELSE Say(s0,Prompt) IN
  IF s.nc \/ Stopped(s) THEN s0
  ELSE IF s.inp = <<>> THEN IF silent THEN s ELSE Say(s,<<10>>)
  ELSE LET q == s.inp[1] s1 == [s EXCEPT !.inp = Tail(@)] IN
    CASE q.k = "t" -> Repl(RLine(s1,q.v,TRUE),silent)
      [] q.k = "r" -> Repl(RLine(s1,q.v,FALSE),silent)
      [] q.v = <<>> -> Repl(s1,silent)
      [] q.v[1] = 41 -> Repl(RCmd(s1,Cmd(q.v)),silent)
      [] Junk(q.v)[1] = "u" -> [s1 EXCEPT !.nc = TRUE]
      [] OTHER -> Repl([s1 EXCEPT !.errs = Append(@,<<-1>>)],silent)
---------------------------------------------------------------------------
(* arguments                                                                 *)
ArgV(a) == IF a[1] = "t" THEN <<"tx",a[2]>> ELSE XStr(a[2])
ArgsV(av,i) == IF i > Len(av) THEN XEmpty ELSE <<"l",<<>> \o [j \in 1..(Len(av)-i+1) |-> ArgV(av[i+j-1])]>>
CHelp == <<45,45,104,101,108,112>>
CVersion == <<45,45,118,101,114,115,105,111,110>>
\* letters
LE == 101
LP == 112
LO == 111
LF == 102
LM == 77
LL == 76
LR == 114
LS == 115
LH == 104
Finish(s,repl) == IF s.nc \/ Stopped(s) THEN s ELSE LET s1 == IF repl = "no" THEN s ELSE Repl(s,repl = "silent") IN IF s1.nc \/ Stopped(s1) THEN s1 ELSE Stop(s1,0)
\* standard input as one text
AllInput(s) == IF Len(s.inp) = 0 THEN <<"bad">> ELSE IF Len(s.inp) = 1 /\ s.inp[1].k = "t" THEN <<"ok",s.inp[1].v>> ELSE IF \E i \in 1..Len(s.inp) : s.inp[i].k # "a" \/ Junk(s.inp[i].v)[1] = "u" THEN <<"u">>
               ELSE <<"bad">>
Stdin(s,av,i,repl) == Finish(Do(RunG([s EXCEPT !.inp = <<>>],AllInput(s),NameStdin,ArgsV(av,i)),LAMBDA s1,v : s1),repl)
File(s,av,i,repl) == IF i > Len(av) THEN Finish(s,repl)
                     ELSE IF av[i][1] = "t" THEN [s EXCEPT !.nc = TRUE]
                     ELSE Finish(Do(RunFile(s,av[i][2],ArgsV(av,i+1)),LAMBDA s1,v : s1),repl)
Complain(s) == Stop([s EXCEPT !.says = TRUE],1)
RECURSIVE Opts(_,_,_,_), Cluster(_,_,_,_,_)
Opts(s,av,i,repl) ==
  IF s.nc \/ Stopped(s) THEN s
  ELSE IF i > Len(av) THEN Finish(s,repl)
  ELSE LET a == av[i][2] IN
    IF av[i][1] = "t" THEN [s EXCEPT !.nc = TRUE]
    ELSE IF a = <<>> \/ a[1] # 45 THEN File(s,av,i,repl)
    ELSE IF a = <<45>> THEN Stdin(s,av,i+1,repl)
    ELSE IF a[2] = 45 THEN IF a \in {CHelp,CVersion} THEN Stop(Say(s,ANY),0) ELSE Stop(Say(s,ANY),1)
    ELSE Cluster(s,av,i+1,Tail(a),repl)
Cluster(s,av,i,cs,repl) ==
  IF s.nc \/ Stopped(s) THEN s
  ELSE IF cs = <<>> THEN Opts(s,av,i,repl)
  ELSE LET c == cs[1] t == Tail(cs)
           code == AsText(av[i])
       IN IF c \in {LE,LP,LO,LF,LM} /\ (t # <<>> \/ i > Len(av)) THEN Complain(s)
          ELSE CASE c = LE -> Cluster(Do(RunG(s,code,NameE,XEmpty),LAMBDA s1,v : s1),av,i+1,t,repl)
                 [] c = LP -> Cluster(Do(RunG(s,code,NameP,XEmpty),LAMBDA s1,v : ShowLine(s1,v)),av,i+1,t,repl)
                 [] c = LO -> Cluster(Do(RunG(s,code,NameO,XEmpty),LAMBDA s1,v : RawLine(s1,v)),av,i+1,t,repl)
                 [] c = LF -> File(s,av,i,repl)
                 [] c = LM -> IF av[i][1] = "a" /\ av[i][2] # <<>> /\ \A j \in 1..Len(av[i][2]) : av[i][2][j] \in 48..57 THEN Cluster(s,av,i+1,t,repl)
                              ELSE IF av[i] = <<"a",<<>>>> THEN [s EXCEPT !.nc = TRUE] ELSE Stop(Say(s,ANY),1)
                 [] c = LL -> Cluster(s,av,i,t,repl)
                 [] c = LR -> Cluster(s,av,i,t,IF repl = "silent" THEN repl ELSE "loud")
                 [] c = LS -> Cluster(s,av,i,t,"silent")
                 [] c = LH -> Stop(Say(s,ANY),0)
                 [] OTHER -> Complain(s)
P0 == [k \in DOMAIN X0 \cup {"code","errs","says"} |-> CASE k = "code" -> -1 [] k = "errs" -> <<>> [] k = "says" -> FALSE [] OTHER -> X0[k]]
Main(fs,av,inp) == LET s == [P0 EXCEPT !.fs = fs, !.inp = inp] IN Opts(s,av,1,IF av = <<>> THEN "loud" ELSE "no")
---------------------------------------------------------------------------
(* what was seen: <<exit status, output bytes, messages of errors, bytes of standard error when there were none, all of it empty>> *)
RECURSIVE Fits(_,_)
Fits(ps,b) == IF ps = <<>> THEN b = <<>>
              ELSE LET p == ps[1] IN
                IF p = ANY THEN b # <<>>
                ELSE IF p = ANYL THEN LET S == {i \in 1..Len(b) : b[i] = 10} IN S # {} /\ LET k == CHOOSE i \in S : \A j \in S : i <= j IN k > 1 /\ Fits(Tail(ps),SubSeq(b,k,Len(b)))
                ELSE Len(b) >= Len(p) /\ SubSeq(b,1,Len(p)) = p /\ Fits(Tail(ps),SubSeq(b,Len(p)+1,Len(b)))
ErrsFit(e,o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : e[i] = <<-1>> \/ e[i] = o[i]
PAgree(s,o) == IF s.nc THEN o[1] \in {0,1} \cup 2..255
              ELSE /\ o[1] = s.code
                   /\ Fits(s.raw,o[2])
                   /\ ErrsFit(s.errs,o[3])
                   /\ (s.errs = <<>> => IF s.says THEN Len(o[4]) > Len(s.eraw) ELSE o[4] = s.eraw)
                   /\ (s.errs # <<>> => Len(o[4]) >= Len(s.eraw))
POp(fs,op) == LET p == PathOf(op[3])
                  f1 == [q \in {q \in DOMAIN fs : q # p} |-> fs[q]] @@ [q \in {SubSeq(p,1,i) : i \in 1..(Len(p)-1)} |-> <<"d">>]
              IN IF op[4][1] = "d" THEN f1 ELSE f1 @@ (p :> (IF op[4][1] = "ln" THEN <<"l",op[4][3]>> ELSE <<"f",op[4][2]>>))
=============================================================================
