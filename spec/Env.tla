------------------------------- MODULE Env --------------------------------
(* Sessions: lines of a small language evaluated one after the other in      *)
(* environments.  A state has                                                *)
(*   scs   scopes: [v |-> names to values, p |-> parent]                     *)
(*   envs  environments: mode of keeping variables, the scope kept, system   *)
(*         values, primitives, and the values of files already imported      *)
(*   out   what has been printed, err: error messages being handled          *)
(*   fs    files: paths to <<"f",text>>, <<"d">> and <<"l",target>>          *)
(*   nc    nothing more is claimed                                           *)
(* Values: <<"n",k>> <<"s",codepoints>> <<"l",values>> <<"ch",glyph>>        *)
(*   <<"tx",text>> (the characters of a text)   <<"ns",scope,names>>         *)
(*   <<"f",statements,context>>   <<"p",function>> <<"q1",m>> <<"q2",m>>     *)
(*   <<"m1",m,f>> <<"m2",m,f,g>>  <<"Y",system function,...>>  <<"r",env>>   *)
(*   <<"U">> not set yet   <<"u">> data not claimed   <<"E",message>> error  *)
(* The context of a text: its environment and <<path,name,args>> or <<>>.    *)
EXTENDS FS
XU == <<"U">>
XE == <<"E",<<-1>>>>
XStr(s) == <<"s",s>>
XEmpty == <<"l",<<>>>>
IsXE(r) == r[2][1] \in {"E","X"}
XIsS(v) == v[1] = "s" \/ (v[1] = "l" /\ v[2] = <<>>)
XCps(v) == IF v[1] = "s" THEN v[2] ELSE <<>>
XNc(s) == <<[s EXCEPT !.nc = TRUE],<<"u">>>>
XOk(s,v) == <<s,v>>
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Dup(q) == \E i,j \in 1..Len(q) : i < j /\ q[i] = q[j]
Flat(qq) == FoldLeft(LAMBDA a,q : a \o q, <<>>, qq)
MapS(q,f(_)) == <<>> \o [i \in 1..Len(q) |-> f(q[i])]
---------------------------------------------------------------------------
(* texts                                                                     *)
RECURSIVE XDefs(_)
\* names defined directly in an expression
XDefs(e) == CASE e[1] \in {"n","s","v","x","y","k","p","f","!","tx","ch"} -> <<>>
              [] e[1] = "l" -> Flat(MapS(e[2],LAMBDA q : XDefs(q)))
              [] e[1] = "ns" -> Flat(MapS(e[2],LAMBDA q : XDefs(q[2])))
              [] e[1] = "+" -> XDefs(e[2]) \o XDefs(e[3])
              [] e[1] = "c" -> XDefs(e[2]) \o XDefs(e[3])
              [] e[1] = "c2" -> XDefs(e[2]) \o XDefs(e[3]) \o XDefs(e[4])
              [] e[1] = "t" -> XDefs(e[2]) \o XDefs(e[3]) \o XDefs(e[4])
              [] e[1] = "=" -> XDefs(e[3]) \o <<e[2]>>
              [] e[1] = ":" -> XDefs(e[3])
              [] e[1] = "." -> XDefs(e[2])
              [] e[1] = "m1" -> XDefs(e[3])
              [] e[1] = "m2" -> XDefs(e[3]) \o XDefs(e[4])
XDefsL(es) == Flat(MapS(es,LAMBDA q : XDefs(q)))
\* primitives: the environment's own list, or the usual ones; role 0 functions, 1 and 2 modifiers
Builtin == [g \in {"+","⊢","⊣","⋈","!","⊑","≠"} |-> 0] @@ [g \in {"˙","˜"} |-> 1] @@ [g \in {"∘","⎊","⊘"} |-> 2]
RoleOf(v) == CASE v[1] \in {"f","p","Y","r","m1","m2"} -> 0 [] v[1] = "q1" -> 1 [] v[1] = "q2" -> 2 [] OTHER -> 3
PrimOf(pr0,g) == LET pr == pr0[2] IN IF pr0[1] = "builtin" THEN IF g \in DOMAIN Builtin THEN <<<<"p","q1","q2">>[Builtin[g]+1],g>> ELSE <<"none">>
                ELSE LET q == SelectSeq(pr,LAMBDA a : RoleOf(a[2]) = 0) \o SelectSeq(pr,LAMBDA a : RoleOf(a[2]) = 1) \o SelectSeq(pr,LAMBDA a : RoleOf(a[2]) = 2)
                         S == {i \in 1..Len(q) : q[i][1] = g}
                     IN IF S = {} THEN <<"none">> ELSE q[CHOOSE i \in S : \A j \in S : i <= j][2]
HasPrim(pr,g,role) == LET v == PrimOf(pr,g) IN v # <<"none">> /\ (role = 9 \/ RoleOf(v) = role)
\* system values: codepoints of the names
CpOf == [out |-> <<111,117,116>>, bqn |-> <<98,113,110>>, rebqn |-> <<114,101,98,113,110>>, import |-> <<105,109,112,111,114,116>>, path |-> <<112,97,116,104>>,
         name |-> <<110,97,109,101>>, args |-> <<97,114,103,115>>, state |-> <<115,116,97,116,101>>, listsys |-> <<108,105,115,116,115,121,115>>,
         currenterror |-> <<99,117,114,114,101,110,116,101,114,114,111,114>>,
         exit |-> <<101,120,105,116>>, getline |-> <<103,101,116,108,105,110,101>>, term |-> <<116,101,114,109>>]
SysKnown == {CpOf[k] : k \in DOMAIN CpOf}
DYN == <<"dyn">>
\* where a path leads: <<"N">> when there is none, <<"bad">>, <<"out">>
BasePath(s,st) == IF st = <<>> THEN <<"N">> ELSE IF st[1] = <<>> THEN <<"bad">>
                  ELSE LET f == Find(s.fs,RelP(PathText(<<RNAME>>),st[1]),TRUE) IN IF f[1] = "ok" THEN <<"P",PathText(f[2])>> ELSE IF f[1] = "out" THEN <<"out">> ELSE <<"bad">>
\* the value of a system name where it is compiled, or an error
SysV(s,nm,env,st) ==
  LET dflt == s.envs[env].sys[1] = "builtin" sys == s.envs[env].sys[2] b == BasePath(s,st)
      base(v) == IF b[1] = "bad" THEN XE ELSE v
      built == CASE nm = CpOf.out -> <<"Y","out">>
                 [] nm = CpOf.currenterror -> <<"Y","currenterror">>
                 [] nm = CpOf.exit -> <<"Y","exit">>
                 [] nm = CpOf.getline -> <<"Y","getline">>
                 [] nm = CpOf.term -> <<"ns",2,{"outraw","errraw","charb","flush"}>>
                 [] nm = CpOf.bqn -> <<"Y","bqn",env>>
                 [] nm = CpOf.rebqn -> <<"Y","rebqn",env>>
                 [] nm = CpOf.import -> base(<<"Y","import",env,b>>)
                 [] nm = CpOf.path -> IF st = <<>> THEN XE ELSE base(XStr(b[2]))
                 [] nm = CpOf.name -> IF st = <<>> THEN XE ELSE XStr(st[2])
                 [] nm = CpOf.args -> IF st = <<>> THEN XE ELSE st[3]
                 [] nm = CpOf.state -> IF st = <<>> THEN XE ELSE base(<<"l",<<XStr(b[2]),XStr(st[2]),st[3]>>>>)
                 [] nm = CpOf.listsys -> IF dflt THEN <<"u">> ELSE <<"l",<<>> \o [i \in 1..Len(sys) |-> sys[i][1]]>>
                 [] OTHER -> XE
      S == IF dflt THEN {} ELSE {i \in 1..Len(sys) : sys[i][1] = XStr(nm)}
  IN IF dflt THEN built
     ELSE IF S = {} THEN XE
     ELSE LET v == sys[CHOOSE i \in S : \A j \in S : i <= j][2] IN IF v = DYN THEN built ELSE v
RECURSIVE XChk(_,_,_,_)
\* may be compiled: c has the state, environment and its <<path,name,args>>
XChk(c,e,nm0,top) == LET k(a) == XChk(c,a,nm0,top) pr == c.s.envs[c.env].prim IN
  CASE e[1] \in {"n","s","tx","ch"} -> TRUE
    [] e[1] = "v" -> e[2] \in nm0
    [] e[1] = "x" -> "$x" \in nm0
    [] e[1] = "y" -> SysV(c.s,e[3],c.env,c.st)[1] # "E"
    [] e[1] = "p" -> HasPrim(pr,e[2],9)
    [] e[1] = "!" -> HasPrim(pr,"!",0)
    [] e[1] = "l" -> \A i \in 1..Len(e[2]) : k(e[2][i])
    [] e[1] = "ns" -> ~Dup(MapS(e[2],LAMBDA q : q[1])) /\ \A i \in 1..Len(e[2]) : XDefs(e[2][i][2]) = <<>> /\ k(e[2][i][2])
    [] e[1] = "+" -> HasPrim(pr,"+",0) /\ k(e[2]) /\ k(e[3])
    [] e[1] = "c" -> k(e[2]) /\ k(e[3])
    [] e[1] = "c2" -> k(e[2]) /\ k(e[3]) /\ k(e[4])
    [] e[1] = "t" -> HasPrim(pr,"⎊",2) /\ k(e[2]) /\ k(e[3]) /\ k(e[4])
    [] e[1] \in {"=",":"} -> e[2] \in nm0 /\ k(e[3])
    [] e[1] = "." -> k(e[2])
    [] e[1] = "m1" -> HasPrim(pr,e[2],1) /\ k(e[3])
    [] e[1] = "m2" -> HasPrim(pr,e[2],2) /\ k(e[3]) /\ k(e[4])
    [] e[1] = "f" -> LET d == XDefsL(e[2]) IN e[2] # <<>> /\ ~Dup(d) /\ \A i \in 1..Len(e[2]) : XChk(c,e[2][i],nm0 \cup {"$x"} \cup SeqSet(d),FALSE)
RECURSIVE XSub(_,_)
\* what is settled when a text is compiled: system values and primitives
XSub(c,e) == LET k(a) == XSub(c,a) kl(q) == MapS(q,LAMBDA a : XSub(c,a)) pr(g) == <<"k",PrimOf(c.s.envs[c.env].prim,g)>> IN
  CASE e[1] \in {"n","s","tx","ch","v","x"} -> e
    [] e[1] = "y" -> <<"k",SysV(c.s,e[3],c.env,c.st)>>
    [] e[1] = "p" -> pr(e[2])
    [] e[1] = "!" -> <<"c2",pr("!"),<<"s",e[2]>>,<<"n",0>>>>
    [] e[1] = "l" -> <<"l",kl(e[2])>>
    [] e[1] = "ns" -> <<"ns",MapS(e[2],LAMBDA q : <<q[1],XSub(c,q[2])>>)>>
    [] e[1] = "+" -> <<"+",k(e[2]),k(e[3]),pr("+")>>
    [] e[1] = "c" -> <<"c",k(e[2]),k(e[3])>>
    [] e[1] = "c2" -> <<"c2",k(e[2]),k(e[3]),k(e[4])>>
    [] e[1] = "t" -> <<"t",k(e[2]),k(e[3]),k(e[4]),pr("⎊")>>
    [] e[1] \in {"=",":"} -> <<e[1],e[2],k(e[3])>>
    [] e[1] = "." -> <<".",k(e[2]),e[3]>>
    [] e[1] = "m1" -> <<"m1",pr(e[2]),k(e[3])>>
    [] e[1] = "m2" -> <<"m2",pr(e[2]),k(e[3]),k(e[4])>>
    [] e[1] = "f" -> <<"f",kl(e[2]),XDefsL(e[2])>>
---------------------------------------------------------------------------
(* evaluation: <<state, value>>                                              *)
NewScope(s,v,p) == [s EXCEPT !.scs = Append(@,[v |-> v, p |-> p])]
RECURSIVE ScOf(_,_,_)
ScOf(s,sc,n) == IF n \in DOMAIN s.scs[sc].v THEN sc ELSE ScOf(s,s.scs[sc].p,n)
FunLike == {"f","p","q1","q2","m1","m2","Y","r","ns"}
RECURSIVE XPlus(_,_)
\* <<"u">> where nothing is claimed
\* paths below /R stand for paths the process knows under another name
XUnder(c) == Len(c) >= 2 /\ SubSeq(c,1,2) = <<47,82>>
XPlus(a,b) == IF a[1] \in FunLike \/ b[1] \in FunLike THEN IF (a[1] = "l" /\ a[2] = <<>>) \/ (b[1] = "l" /\ b[2] = <<>>) THEN <<"u">> ELSE XE
              ELSE IF a[1] = "n" /\ b[1] = "n" THEN <<"n",a[2]+b[2]>>
              ELSE IF a[1] = "n" /\ b[1] = "s" THEN IF ~XUnder(b[2]) /\ (\A i \in 1..Len(b[2]) : b[2][i]+a[2] \in (32..55000) \ {34}) THEN <<"s",MapS(b[2],LAMBDA q : q+a[2])>> ELSE <<"u">>
              ELSE IF b[1] = "n" /\ a[1] = "s" THEN XPlus(b,a)
              ELSE IF a[1] = "s" /\ b[1] = "s" THEN IF a[2] # <<>> /\ b[2] # <<>> THEN XE ELSE <<"u">>
              ELSE IF (a[1] = "l" /\ b[1] \in {"n","l"}) \/ (b[1] = "l" /\ a[1] = "n") THEN
                     LET n == IF a[1] = "l" THEN Len(a[2]) ELSE Len(b[2])
                         q == [i \in 1..n |-> XPlus(IF a[1] = "l" THEN a[2][i] ELSE a,IF b[1] = "l" THEN b[2][i] ELSE b)]
                     IN IF a[1] = "l" /\ b[1] = "l" /\ Len(a[2]) # Len(b[2]) THEN XE
                        ELSE IF \E i \in 1..n : q[i] = <<"u">> THEN <<"u">>
                        ELSE IF \E i \in 1..n : q[i] = XE THEN XE ELSE <<"l",<<>> \o q>>
              ELSE <<"u">>
NONE == <<"none">>
RECURSIVE XEv(_,_,_), XEvL(_,_,_,_), XBody(_,_,_), XCall(_,_,_,_), XText(_,_,_,_,_)
\* statements one after the other, the last one's value
XBody(s,es,sc) == FoldLeft(LAMBDA a,e : IF IsXE(a) THEN a ELSE XEv(a[1],e,sc), <<s,XU>>, es)
\* list left to right
XEvL(s,es,sc,acc) == IF es = <<>> THEN <<s,<<"l",acc>>>> ELSE LET a == XEv(s,es[1],sc) IN IF IsXE(a) THEN a ELSE XEvL(a[1],Tail(es),sc,Append(acc,a[2]))
\* several in order, then f of them
Then1(a,f(_,_)) == IF IsXE(a) THEN a ELSE f(a[1],a[2])
XEv(s,e,sc) ==
  CASE e[1] \in {"n","s","tx","ch"} -> <<s,e>>
    [] e[1] = "k" -> IF e[2] = <<"u">> THEN XNc(s) ELSE <<s,e[2]>>
    [] e[1] = "x" -> <<s,s.scs[ScOf(s,sc,"$x")].v["$x"]>>
    [] e[1] = "v" -> LET v == s.scs[ScOf(s,sc,e[2])].v[e[2]] IN <<s,IF v = XU THEN XE ELSE v>>
    [] e[1] = "l" -> XEvL(s,e[2],sc,<<>>)
    [] e[1] = "+" -> Then1(XEv(s,e[3],sc),LAMBDA s1,b : Then1(XEv(s1,e[2],sc),LAMBDA s2,a : XCall(s2,e[4][2],a,b)))
    [] e[1] = "f" -> <<s,<<"f",e[2],e[3],sc>>>>
    [] e[1] = "ns" -> LET names == MapS(e[2],LAMBDA q : q[1])
                          s0 == NewScope(s,[n \in SeqSet(names) |-> XU],sc) id == Len(s0.scs)
                          r == FoldLeft(LAMBDA a,q : IF IsXE(a) THEN a ELSE Then1(XEv(a[1],q[2],id),LAMBDA s1,v : <<[s1 EXCEPT !.scs[id].v[q[1]] = v],v>>), <<s0,XU>>, e[2])
                      IN IF IsXE(r) THEN r ELSE <<r[1],<<"ns",id,SeqSet(names)>>>>
    [] e[1] = "c" -> Then1(XEv(s,e[3],sc),LAMBDA s1,x : Then1(XEv(s1,e[2],sc),LAMBDA s2,f : XCall(s2,f,NONE,x)))
    [] e[1] = "c2" -> Then1(XEv(s,e[4],sc),LAMBDA s1,x : Then1(XEv(s1,e[2],sc),LAMBDA s2,f : Then1(XEv(s2,e[3],sc),LAMBDA s3,w : XCall(s3,f,w,x))))
    [] e[1] = "t" -> Then1(XEv(s,e[4],sc),LAMBDA s1,x : Then1(XEv(s1,e[3],sc),LAMBDA s2,g : Then1(XEv(s2,e[2],sc),LAMBDA s3,f : XCall(s3,IF e[5][2] = <<"q2","⎊">> THEN <<"m2","⎊",f,g>> ELSE <<"m2",e[5][2],f,g>>,NONE,x))))
    [] e[1] = "m1" -> Then1(XEv(s,e[3],sc),LAMBDA s1,f : <<s1,<<"m1",e[2][2][2],f>>>>)
    [] e[1] = "m2" -> Then1(XEv(s,e[4],sc),LAMBDA s1,g : Then1(XEv(s1,e[3],sc),LAMBDA s2,f : <<s2,<<"m2",e[2][2][2],f,g>>>>))
    [] e[1] = "=" -> Then1(XEv(s,e[3],sc),LAMBDA s1,v : <<[s1 EXCEPT !.scs[ScOf(s1,sc,e[2])].v[e[2]] = v],v>>)
    [] e[1] = ":" -> Then1(XEv(s,e[3],sc),LAMBDA s1,v : LET q == ScOf(s1,sc,e[2]) IN IF s1.scs[q].v[e[2]] = XU THEN <<s1,XE>> ELSE <<[s1 EXCEPT !.scs[q].v[e[2]] = v],v>>)
    [] e[1] = "." -> Then1(XEv(s,e[2],sc),LAMBDA s1,v : IF v[1] # "ns" THEN <<s1,XE>> ELSE IF e[3] \notin v[3] THEN <<s1,XE>>
                                                        ELSE LET r == s1.scs[v[2]].v[e[3]] IN <<s1,IF r = XU THEN XE ELSE r>>)
XPrim(s,g,w,x) ==
  CASE g = "⊢" -> <<s,x>>
    [] g = "⊣" -> <<s,IF w = NONE THEN x ELSE w>>
    [] g = "⋈" -> <<s,<<"l",IF w = NONE THEN <<x>> ELSE <<w,x>>>>>>
    [] g = "+" -> IF w # NONE THEN (LET r == XPlus(w,x) IN IF r = <<"u">> THEN XNc(s) ELSE <<s,r>>)
                  ELSE IF x[1] = "n" THEN <<s,x>> ELSE IF x[1] \in FunLike \/ (x[1] = "s" /\ x[2] # <<>>) THEN <<s,XE>> ELSE XNc(s)
    [] g = "≠" -> IF w # NONE \/ x[1] \in {"tx","u"} THEN XNc(s) ELSE <<s,<<"n",IF x[1] \in {"l","s"} THEN Len(x[2]) ELSE 1>>>>
    [] g = "⊑" -> IF x[1] \in {"tx","u"} THEN XNc(s)
                  ELSE LET n == IF x[1] \in {"l","s"} THEN Len(x[2]) ELSE 0
                           at(i) == IF x[1] = "s" THEN <<"c",x[2][i]>> ELSE x[2][i]
                       IN IF w = NONE THEN IF x[1] \notin {"l","s"} THEN <<s,x>> ELSE IF n = 0 THEN XNc(s) ELSE <<s,at(1)>>
                          ELSE IF x[1] \notin {"l","s"} \/ w[1] # "n" THEN XNc(s)
                          ELSE IF w[2] >= n \/ w[2] < -n THEN <<s,XE>> ELSE <<s,at(IF w[2] < 0 THEN n+w[2]+1 ELSE w[2]+1)>>
    [] g = "!" -> IF x = <<"n",1>> THEN <<s,x>>
                  ELSE IF w = NONE THEN <<s,IF x[1] = "s" THEN <<"E",x[2]>> ELSE XE>>
                  ELSE <<s,IF w[1] = "s" THEN <<"E",w[2]>> ELSE XE>>
\* options of an environment
Field(s,ns,n) == IF n \in ns[3] THEN s.scs[ns[2]].v[n] ELSE NONE
\* what a name means in the environment below: <<"none">> when it has none
SysIn(sys0,nv) == LET sys == sys0[2] IN IF sys0[1] = "builtin" THEN IF XCps(nv) \in SysKnown THEN DYN ELSE IF Len(XCps(nv)) > 1 /\ SubSeq(XCps(nv),1,2) = <<122,122>> THEN NONE ELSE <<"u">>
                 ELSE LET S == {i \in 1..Len(sys) : sys[i][1] = nv} IN IF S = {} THEN NONE ELSE sys[CHOOSE i \in S : \A j \in S : i <= j][2]
\* <<"E">>, <<"u">>, or the list
SysOpt(prev,v) == IF v = NONE THEN <<"ok",prev>>
                  ELSE IF v[1] = "s" THEN IF v[2] = <<97,108,108>> THEN <<"ok",prev>> ELSE IF v[2] = <<110,111,110,101>> \/ v[2] = <<>> THEN <<"ok",<<"own",<<>>>>>> ELSE <<"E">>
                  ELSE IF v[1] # "l" THEN <<"E">>
                  ELSE LET it == v[2] isn(a) == a[1] = "s" IN
                    IF \E i \in 1..Len(it) : it[i][1] = "tx" \/ it[i] = XEmpty \/ it[i] = XStr(<<>>) \/ (it[i][1] = "l" /\ \A j \in 1..Len(it[i][2]) : it[i][2][j][1] = "ch") THEN <<"u">>
                    ELSE IF \E i \in 1..Len(it) : ~isn(it[i]) /\ ~(it[i][1] = "l" /\ Len(it[i][2]) = 2) THEN <<"E">>
                    ELSE LET q == [i \in 1..Len(it) |-> IF isn(it[i]) THEN <<it[i],SysIn(prev,it[i])>> ELSE it[i][2]] IN
                      IF \E i \in 1..Len(it) : q[i][2] = NONE THEN <<"E">>
                      ELSE IF \E i \in 1..Len(it) : q[i][2] = <<"u">> THEN <<"u">> ELSE <<"ok",<<"own",<<>> \o q>>>>
PrimOpt(prev,v) == IF v = NONE THEN <<"ok",prev>>
                   ELSE IF v[1] \in {"s","tx"} THEN IF v = XStr(<<>>) THEN <<"ok",<<"own",<<>>>>>> ELSE <<"E">>
                   ELSE IF v[1] # "l" THEN <<"E">>
                   ELSE LET it == v[2] IN
                     IF \E i \in 1..Len(it) : ~(it[i][1] = "l" /\ Len(it[i][2]) = 2) \/ it[i][2][1][1] # "ch" \/ RoleOf(it[i][2][2]) = 3 THEN <<"E">>
                     ELSE <<"ok",<<"own",<<>> \o [i \in 1..Len(it) |-> <<it[i][2][1][2],it[i][2][2]>>]>>>>
Rebqn(s,env,x) ==
  IF x[1] # "ns" THEN <<s,XE>>
  ELSE LET rp == Field(s,x,"repl") m == IF rp = NONE \/ rp = XStr(<<110,111,110,101>>) THEN "none" ELSE IF rp = XStr(<<115,116,114,105,99,116>>) THEN "strict" ELSE IF rp = XStr(<<108,111,111,115,101>>) THEN "loose" ELSE "E"
           p == PrimOpt(s.envs[env].prim,Field(s,x,"primitives"))
           y == SysOpt(s.envs[env].sys,Field(s,x,"system"))
           s1 == NewScope(s,<<>>,0)
       IN IF m = "E" \/ p[1] = "E" THEN <<s,XE>>
          ELSE IF y[1] = "u" THEN XNc(s) ELSE IF y[1] = "E" THEN <<s,XE>>
          ELSE <<[s1 EXCEPT !.envs = Append(@,[mode |-> m, sc |-> Len(s1.scs), sys |-> y[2], prim |-> p[2], imp |-> <<>>])],<<"r",Len(s.envs)+1>>>>
\* the text's <<path,name,args>> from a left argument: <<"E">>, <<"u">>
StOf(w) == IF w[1] = "tx" THEN <<"E">>
           ELSE IF w[1] = "s" THEN IF w[2] = <<>> THEN <<"ok",<<PathText(<<RNAME>>),<<>>,XEmpty>>>> ELSE <<"E">>
           ELSE IF w[1] # "l" THEN <<"E">>
           ELSE LET a == w[2] n == Len(a) IN
             IF n > 3 THEN <<"E">>
             ELSE IF (n > 0 /\ a[1][1] = "tx") \/ (n > 1 /\ a[2][1] = "tx") THEN <<"u">>
             ELSE IF (n > 0 /\ ~XIsS(a[1])) \/ (n > 1 /\ ~XIsS(a[2])) THEN <<"E">>
             ELSE <<"ok",<<IF n > 0 THEN XCps(a[1]) ELSE PathText(<<RNAME>>),IF n > 1 THEN XCps(a[2]) ELSE <<>>,IF n > 2 THEN a[3] ELSE XEmpty>>>>
Utf8C(cs) == FoldLeft(LAMBDA a,c : a \o EncU(c), <<>>, cs)
\* lines of the standard input still to be read: [k |-> "a", v |-> bytes, t |-> what ends it] or a text
LineText(v) == LET d == DecU(v,1,<<>>) IN IF d = ERR THEN <<"u">> ELSE XStr(<<>> \o [i \in 1..Len(d[3]) |-> d[3][i][2]])
GetLine(s) == IF s.inp = <<>> THEN <<s,<<"c",0>>>>
              ELSE LET q == s.inp[1] s1 == [s EXCEPT !.inp = Tail(@)] IN
                IF q.k = "t" THEN <<s1,<<"tx",q.v>>>> ELSE IF q.k # "a" THEN XNc(s1) ELSE LET v == LineText(q.v) IN IF v = <<"u">> THEN XNc(s1) ELSE <<s1,v>>
CharB(s) == IF s.inp = <<>> THEN <<s,<<"n",0>>>>
            ELSE LET q == s.inp[1] b == q.v \o q.t IN
              IF q.k # "a" THEN XNc(s)
              ELSE <<[s EXCEPT !.inp = IF Len(b) = 1 THEN Tail(@) ELSE [@ EXCEPT ![1] = IF q.v # <<>> THEN [q EXCEPT !.v = Tail(@)] ELSE [q EXCEPT !.t = Tail(@)]]],<<"c",b[1]>>>>
ImpMark == <<"running">>
XImport(s,env,b,w,x) ==
  IF x[1] \in {"tx","u"} THEN XNc(s) ELSE IF ~XIsS(x) THEN <<s,XE>>
  ELSE IF b[1] = "out" THEN XNc(s)
  ELSE LET p == XCps(x) IN
    IF b[1] = "N" /\ ~AbsP(p) THEN <<s,XE>>
    ELSE LET f == Find(s.fs,IF b[1] = "N" THEN p ELSE RelP(b[2],p),TRUE) IN
      IF f[1] = "out" THEN XNc(s)
      ELSE IF f[1] # "ok" THEN <<s,XE>>
      ELSE LET q == f[2] had == s.envs[env].imp
               st == <<PathText(SubSeq(q,1,Len(q)-1)) \o <<SLASH>>,q[Len(q)],IF w = NONE THEN XEmpty ELSE w>>
               run(s1) == IF Kind(s1.fs,q) # "f" THEN <<s1,XE>> ELSE XText(s1,s1.fs[q][2],env,st,FALSE)
           IN IF w # NONE THEN run(s)
              ELSE IF q \in DOMAIN had THEN <<s,IF had[q] = ImpMark THEN XE ELSE had[q]>>
              ELSE LET r == run([s EXCEPT !.envs[env].imp = (q :> ImpMark) @@ @])
                   IN IF IsXE(r) THEN <<[r[1] EXCEPT !.envs[env].imp = [k \in DOMAIN @ \ {q} |-> @[k]]],r[2]>>
                      ELSE <<[r[1] EXCEPT !.envs[env].imp = (q :> r[2]) @@ @],r[2]>>
Catch(s,f,g,w,x) == LET r == XCall(s,f,w,x) IN
  IF ~IsXE(r) \/ r[2][1] = "X" THEN r
  ELSE LET q == XCall([r[1] EXCEPT !.err = <<r[2][2]>>],g,w,x) IN <<[q[1] EXCEPT !.err = s.err],q[2]>>
XTextV(s,x,env,st,keep) == IF x[1] = "tx" THEN XText(s,x[2],env,st,keep) ELSE IF XIsS(x) THEN (IF x[1] = "s" /\ \E i \in 1..Len(x[2]) : x[2][i] \in {34,91,123} THEN XNc(s) ELSE <<s,XE>>) ELSE <<s,XE>>
XCall(s0,f,w,x) ==
  LET s == [s0 EXCEPT !.fuel = @-1] IN
  IF s.nc \/ s.fuel < 0 THEN XNc(s)
  ELSE CASE f[1] \in {"n","s","l","ch","c","tx","ns"} -> <<s,f>>
    [] f[1] = "u" -> XNc(s)
    [] f[1] \in {"q1","q2"} -> <<s,XE>>
    [] f[1] = "f" -> LET s1 == NewScope(s,[n \in SeqSet(f[3]) \cup {"$x"} |-> IF n = "$x" THEN x ELSE XU],f[4]) IN XBody(s1,f[2],Len(s1.scs))
    [] f[1] = "p" -> XPrim(s,f[2],w,x)
    [] f[1] = "m1" -> IF f[2] = "˙" THEN <<s,f[3]>> ELSE XCall(s,f[3],x,IF w = NONE THEN x ELSE w)
    [] f[1] = "m2" -> IF f[2] = "∘" THEN Then1(XCall(s,f[4],w,x),LAMBDA s1,v : XCall(s1,f[3],NONE,v))
                      ELSE IF f[2] = "⊘" THEN XCall(s,IF w = NONE THEN f[3] ELSE f[4],w,x)
                      ELSE IF f[2] = "⎊" THEN Catch(s,f[3],f[4],w,x)
                      ELSE IF f[2][1] = "q2" THEN XCall(s,<<"m2",f[2][2],f[3],f[4]>>,w,x) ELSE XNc(s)
    [] f[1] = "r" -> LET st == StOf(IF w = NONE THEN XEmpty ELSE w) IN
                     IF x[1] # "tx" /\ ~XIsS(x) THEN <<s,XE>> ELSE IF st[1] = "u" THEN XNc(s) ELSE IF st[1] = "E" THEN <<s,XE>> ELSE XTextV(s,x,f[2],st[2],TRUE)
    [] f[1] = "Y" ->
       CASE f[2] = "out" -> IF w # NONE THEN <<s,XE>> ELSE IF x[1] \in {"tx","u"} THEN XNc(s) ELSE IF XIsS(x) THEN <<[s EXCEPT !.out = Append(@,XCps(x)), !.raw = Append(@,Utf8C(XCps(x)) \o <<10>>)],x>> ELSE <<s,XE>>
         [] f[2] = "exit" -> IF w # NONE THEN <<s,XE>> ELSE IF x[1] \in {"tx","u"} THEN XNc(s) ELSE <<s,<<"X",IF x[1] = "n" THEN x[2] % 256 ELSE 0>>>>
         [] f[2] = "getline" -> IF w # NONE THEN <<s,XE>> ELSE GetLine(s)
         [] f[2] \in {"outraw","errraw"} ->
              IF w # NONE THEN <<s,XE>> ELSE IF x[1] \in {"tx","u"} \/ (x[1] = "l" /\ x[2] # <<>>) THEN XNc(s) ELSE IF ~XIsS(x) THEN <<s,XE>>
              ELSE IF \E i \in 1..Len(XCps(x)) : XCps(x)[i] > 255 THEN XNc(s)
              ELSE IF f[2] = "outraw" THEN <<[s EXCEPT !.raw = Append(@,XCps(x))],x>> ELSE <<[s EXCEPT !.eraw = @ \o XCps(x)],x>>
         [] f[2] = "charb" -> IF w # NONE THEN <<s,XE>> ELSE CharB(s)
         [] f[2] = "flush" -> IF w # NONE THEN <<s,XE>> ELSE <<s,x>>
         [] f[2] = "currenterror" -> IF w # NONE \/ x[1] = "ns" THEN <<s,XE>> ELSE IF s.err = <<>> THEN <<s,XE>> ELSE IF s.err[1] = <<-1>> THEN <<s,<<"u">>>> ELSE <<s,XStr(s.err[1])>>
         [] f[2] = "bqn" -> IF x[1] # "tx" /\ ~XIsS(x) THEN <<s,XE>>
                            ELSE IF w = NONE THEN XTextV(s,x,f[3],<<>>,FALSE)
                            ELSE LET st == StOf(w) IN IF st[1] = "u" THEN XNc(s) ELSE IF st[1] = "E" THEN <<s,XE>> ELSE XTextV(s,x,f[3],st[2],FALSE)
         [] f[2] = "rebqn" -> IF w # NONE THEN <<s,XE>> ELSE Rebqn(s,f[3],x)
         [] f[2] = "import" -> XImport(s,f[3],f[4],w,x)
\* a text in an environment; keep: in the scope the environment keeps
XText(s,t,env,st,keep0) ==
  LET en == s.envs[env] keep == keep0 /\ en.mode # "none"
      old == IF keep THEN DOMAIN s.scs[en.sc].v ELSE {}
      d == XDefsL(t[1]) c == [s |-> s, env |-> env, st |-> st]
      nm0 == old \cup SeqSet(d)
      ok == t[1] # <<>> /\ ~Dup(d) /\ (en.mode = "loose" \/ SeqSet(d) \cap old = {}) /\ SeqSet(t[2]) \subseteq nm0 /\ (\A i \in 1..Len(t[1]) : XChk(c,t[1][i],nm0,TRUE))
            /\ ~(keep /\ env # 1 /\ t[2] # <<>>)
  IN IF ~ok THEN <<s,XE>>
     ELSE LET es == MapS(t[1],LAMBDA e : XSub(c,e))
              add == [n \in SeqSet(d) \ old |-> XU]
              s1 == IF keep THEN [s EXCEPT !.scs[en.sc].v = @ @@ add] ELSE NewScope(s,add,0)
              sc == IF keep THEN en.sc ELSE Len(s1.scs)
              r == XBody(s1,es,sc)
          IN IF IsXE(r) \/ keep \/ t[2] = <<>> THEN r ELSE <<r[1],<<"ns",sc,SeqSet(t[2])>>>>
---------------------------------------------------------------------------
(* operations of a session                                                   *)
Env0 == [mode |-> "loose", sc |-> 1, sys |-> <<"builtin",<<>>>>, prim |-> <<"builtin",<<>>>>, imp |-> <<>>]
TermSc == [v |-> [n \in {"outraw","errraw","charb","flush"} |-> <<"Y",n>>], p |-> 0]
X0 == [scs |-> <<[v |-> <<>>, p |-> 0],TermSc>>, inp |-> <<>>, raw |-> <<>>, eraw |-> <<>>, envs |-> <<Env0>>, out |-> <<>>, err |-> <<>>, fs |-> (<<>> :> <<"d">>) @@ (<<RNAME>> :> <<"d">>), nc |-> FALSE, fuel |-> 0, order |-> <<>>]
ReplName == <<40,82,69,80,76,41>>
ReplSt == <<PathText(<<RNAME>>),ReplName,XEmpty>>
Fuel == 400
\* codepoints of a path to names
PathOf(cp) == SelectSeq(SplitP(cp),LAMBDA a : a # <<>>)
PutFile(fs,p,v) == LET dirs == [q \in {SubSeq(p,1,i) : i \in 1..(Len(p)-1)} |-> <<"d">>] IN fs @@ dirs
\* <<expected response, state>>; an expected response is <<"val",v>> <<"err",m>> <<"none">> <<"vars",names>> <<"erase",k>> <<"any">>
XLine(s,t,show) == LET old == DOMAIN s.scs[1].v
                       r == XText(s,t,1,ReplSt,TRUE)
                       new == SelectSeq(XDefsL(t[1]),LAMBDA n : n \notin old /\ n \in DOMAIN r[1].scs[1].v)
                       s1 == [r[1] EXCEPT !.err = <<>>, !.order = IF IsXE(r) /\ new = <<>> THEN @ ELSE @ \o new]
                   IN IF r[1].nc THEN <<<<"any">>,r[1]>> ELSE IF r[2][1] = "X" THEN <<<<"exit",r[2][2]>>,s1>> ELSE IF IsXE(r) THEN <<<<"err",r[2][2]>>,s1>> ELSE <<IF show THEN <<"val",r[2]>> ELSE <<"none">>,s1>>
XOp(s0,op) ==
  LET s == [s0 EXCEPT !.out = <<>>, !.fuel = Fuel] IN
  CASE op[1] = "line" -> XLine(s,op[2],TRUE)
    [] op[1] = "r" -> XLine(s,op[2],FALSE)
    [] op[1] = "ex" -> LET f == Find(s.fs,op[3],TRUE) IN IF f[1] = "out" THEN <<<<"any">>,[s EXCEPT !.nc = TRUE]>> ELSE IF f[1] = "ok" /\ Kind(s.fs,f[2]) = "f" THEN XLine(s,s.fs[f[2]][2],FALSE) ELSE <<<<"err",<<-1>>>>,s>>
    [] op[1] = "vars" -> <<<<"vars",s.order>>,s>>
    [] op[1] = "erase" -> IF op[2] \in DOMAIN s.scs[1].v THEN <<<<"erase",0>>,[s EXCEPT !.scs[1].v[op[2]] = XU]>> ELSE <<<<"erase",1>>,s>>
    [] op[1] \in {"gc","mem"} -> <<<<"any1">>,s>>
    [] op[1] = "clearImportCache" -> <<<<"none">>,[s EXCEPT !.envs[1].imp = <<>>]>>
    [] op[1] = "file" -> LET p == PathOf(op[3])
                             fs == [q \in {q \in DOMAIN s.fs : q # p} |-> s.fs[q]] @@ [q \in {SubSeq(p,1,i) : i \in 1..(Len(p)-1)} |-> <<"d">>]
                         IN <<<<"done">>,[s EXCEPT !.fs = IF op[4][1] = "d" THEN fs ELSE fs @@ (p :> (IF op[4][1] = "ln" THEN <<"l",op[4][3]>> ELSE <<"f",op[4][2]>>))]>>
\* a value as printed against a value
RECURSIVE XSame(_,_)
XSame(v,o) == CASE v[1] = "n" -> o = <<"n",v[2]>>
                [] v[1] = "s" -> IF v[2] = <<>> THEN o[1] = "l" /\ o[2] = <<>> ELSE o = <<"s",v[2]>>
                [] v[1] = "l" -> IF v[2] = <<>> THEN o[1] = "l" /\ o[2] = <<>>
                                 ELSE IF \A i \in 1..Len(v[2]) : v[2][i][1] = "ch" THEN TRUE
                                 ELSE o[1] = "l" /\ Len(o[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : XSame(v[2][i],o[2][i])
                [] v[1] \in {"u","tx","ch"} -> TRUE
                [] OTHER -> o = <<"o">>
RECURSIVE HasTx(_)
HasTx(v) == v[1] \in {"tx","u"} \/ (v[1] = "l" /\ \E i \in 1..Len(v[2]) : HasTx(v[2][i]))
XAgree(e,s,o) == LET r == o[1] IN
                 IF s.nc THEN r[1] # "crash"
                 ELSE o[2] = s.out /\
                   CASE e[1] = "done" -> r[1] = "done"
                     [] e[1] = "any1" -> r[1] = "none"
                     [] e[1] = "val" -> IF HasTx(e[2]) THEN r[1] \notin {"E","none","crash"} ELSE r[1] \notin {"E","none","?","crash"} /\ XSame(e[2],r)
                     [] e[1] = "err" -> r[1] = "E" /\ (e[2] = <<-1>> \/ e[2] = r[2])
                     [] e[1] = "none" -> r[1] = "none" /\ r[2] = <<>>
                     [] e[1] \in {"vars","erase"} -> r = e
=============================================================================
