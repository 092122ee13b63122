-------------------------------- MODULE Grammar ------------------------------
(* Source text of the native compiler: tokens, expressions, statements and   *)
(* blocks, and what running them gives. A text is a sequence of code points. *)
EXTENDS BQN
BAD == "bad"                     \* not in the grammar
\* values that are not data
FnV(t) == <<7,200,t>>            \* a function with a definition
BlkV(b) == <<7,203,b>>           \* a block taking arguments
ModV(n) == <<7,201,n>>
IsFnV(v) == v[1] = 7 /\ Len(v) = 3 /\ v[2] = 200
IsData(v) == v[1] # 7 /\ v # NOW
--------------------------------------------------------------------------
(* tokens *)
Digit(c) == c >= 48 /\ c <= 57
Upper(c) == c >= 65 /\ c <= 90
Lower(c) == c >= 97 /\ c <= 122
NameCh(c) == Digit(c) \/ Upper(c) \/ Lower(c)
Norm(s) == <<>> \o [i \in 1..Len(s) |-> IF Upper(s[i]) THEN s[i]+32 ELSE s[i]]
PrimAt == <<43,45,215,247,8902,8730,8970,8968,124,172,8743,8744,60,62,8800,61,8804,8805,8801,8802,8867,8866,10570,8766,8781,8904,8593,8595,8597,171,187,9021,9033,47,9035,9042,8847,8849,8848,8850,8714,9079,8852,33,732,728,168,8988,8316,180,733,96,8728,9675,8888,10204,9022,8856,9718,9097,9863,9055,9098>>
PrimName == <<"add","sub","mul","div","pow","root","floor","ceil","stile","not","and","or","lt","gt","ne","eq","le","ge","match","nmatch","ltack","rtack","shape","join","couple","pair","take","drop","ud","sha","shb","rev","transp","slash","gradeU","gradeD","select","pick","indexOf","count","memberOf","find","group","assert","swap","cells","each","tbl","undo","fold","insert","scan","atop","over","before","after","under","val","cond","rank","depth","repeat","catch">>
PrimIx(c) == LET q == {i \in 1..Len(PrimAt) : PrimAt[i] = c} IN IF q = {} THEN 0 ELSE CHOOSE i \in q : TRUE
\* end of the run of characters satisfying a predicate
RECURSIVE EndNum(_,_), EndName(_,_), FindC(_,_,_)
EndNum(s,i) == IF i <= Len(s) /\ Digit(s[i]) THEN EndNum(s,i+1) ELSE i
EndName(s,i) == IF i <= Len(s) /\ NameCh(s[i]) THEN EndName(s,i+1) ELSE i
FindC(s,i,c) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindC(s,i+1,c)
DigitsV(d) == IF Len(d) > 15 THEN NC ELSE FoldLeft(LAMBDA a,c : PV2("add",PV2("mul",a,N(10)),N(c-48)), N(0), d)
Lit(v) == [k |-> "lit", r |-> "s", v |-> v]
PiV == <<3,16393,8699,21572,11544>>
SysTok(n) == \* values of the system names used here
  IF n = <<111,117,116>> THEN [k |-> "lit", r |-> "f", v |-> FnV([k |-> "out"])]
  ELSE IF n = <<109,97,116,104>> THEN [k |-> "lit", r |-> "s", v |-> <<7,205>>]
  ELSE [k |-> BAD]
RECURSIVE Toks(_,_,_)
Toks(s,i,a) ==
  IF i > Len(s) THEN a
  ELSE LET c == s[i] nx == IF i < Len(s) THEN s[i+1] ELSE 0 IN
    CASE c = 32 -> Toks(s,i+1,a)
      [] c = 8734 -> Toks(s,i+1,Append(a,Lit(INF)))
      [] c = 960 -> Toks(s,i+1,Append(a,Lit(PiV)))
      [] c = 64 -> Toks(s,i+1,Append(a,Lit(<<1,0>>)))
      [] Digit(c) -> LET e == EndNum(s,i) IN Toks(s,e,Append(a,Lit(DigitsV(SubSeq(s,i,e-1)))))
      [] c = 175 -> IF ~Digit(nx) THEN <<[k |-> BAD]>>
                    ELSE LET e == EndNum(s,i+1) v == DigitsV(SubSeq(s,i+1,e-1)) IN Toks(s,e,Append(a,Lit(IF v = NC THEN NC ELSE PV1("sub",v))))
      [] c = 34 -> LET e == FindC(s,i+1,34) IN \* no quotes in strings
                   IF e = 0 \/ (e < Len(s) /\ s[e+1] = 34) THEN <<[k |-> BAD]>>
                   ELSE Toks(s,e+1,Append(a,Lit(List([j \in 1..e-i-1 |-> <<1,s[i+j]>>]))))
      [] c = 39 -> IF i+2 > Len(s) \/ s[i+2] # 39 THEN <<[k |-> BAD]>> ELSE Toks(s,i+3,Append(a,Lit(<<1,s[i+1]>>)))
      [] c = 35 -> LET e == FindC(s,i,10) IN IF e = 0 THEN Append(a,[k |-> "sep"]) ELSE Toks(s,e+1,Append(a,[k |-> "sep"]))
      [] c \in {120168,120169} -> Toks(s,i+1,Append(a,[k |-> "name", r |-> "s", n |-> <<c>>]))
      [] c = 8226 -> LET e == EndName(s,i+1) t == SysTok(Norm(SubSeq(s,i+1,e-1))) IN
                     IF t.k = BAD THEN <<t>> ELSE Toks(s,e,Append(a,IF (t.r = "f") = Upper(nx) THEN t ELSE [t EXCEPT !.v = NC]))
      [] Upper(c) \/ Lower(c) -> LET e == EndName(s,i) IN Toks(s,e,Append(a,[k |-> "name", r |-> IF Upper(c) THEN "f" ELSE "s", n |-> Norm(SubSeq(s,i,e-1))]))
      [] c \in {8900,44,10} -> Toks(s,i+1,Append(a,[k |-> "sep"]))
      [] c \in {40,41,123,125,10216,10217,8592,8617,46} -> Toks(s,i+1,Append(a,[k |-> "p", c |-> c]))
      [] c = 729 -> Toks(s,i+1,Append(a,[k |-> "lit", r |-> "m1", v |-> ModV("const")]))
      [] OTHER -> LET p == PrimIx(c) IN
                  IF p = 0 THEN <<[k |-> BAD]>>
                  ELSE LET n == PrimName[p]
                           t == IF p <= 44 THEN [k |-> "lit", r |-> "f", v |-> FnV([k |-> "p", n |-> n])]
                                ELSE [k |-> "lit", r |-> IF p <= 52 THEN "m1" ELSE "m2", v |-> ModV(n)]
                       IN Toks(s,i+1,Append(a,t))
--------------------------------------------------------------------------
(* expressions: modifiers bind their operands first, from the left; then     *)
(* application or trains from the right                                      *)
BadE == [k |-> BAD, r |-> BAD]
Operand(e) == e.k # "as" /\ e.r \in {"f","s"}
RECURSIVE Mods(_,_,_), Merge1(_,_,_), Chain(_,_,_,_)
Mods(ps,i,e) == \* modifiers following the operand e: <<expression, next position>>
  IF i > Len(ps) \/ ps[i].k = "as" THEN <<e,i>>
  ELSE IF ps[i].r = "m1" THEN Mods(ps,i+1,[k |-> "m1", r |-> "f", m |-> ps[i], f |-> e])
  ELSE IF ps[i].r = "m2" THEN (IF i = Len(ps) THEN <<BadE,0>> ELSE IF ~Operand(ps[i+1]) THEN <<BadE,0>>
                               ELSE Mods(ps,i+2,[k |-> "m2", r |-> "f", m |-> ps[i], f |-> e, g |-> ps[i+1]]))
  ELSE <<e,i>>
Merge1(ps,i,a) == IF i > Len(ps) THEN a
                  ELSE IF ps[i].k = "as" THEN Merge1(ps,i+1,Append(a,ps[i]))
                  ELSE IF ~Operand(ps[i]) THEN <<BadE>>
                  ELSE LET q == Mods(ps,i+1,ps[i]) IN IF q[1].k = BAD THEN <<BadE>> ELSE Merge1(ps,q[2],Append(a,q[1]))
Chain(q,i,e,r) ==  \* e is the meaning of q from position i on; r is the role of the rightmost part
  IF i = 1 THEN e
  ELSE LET l == q[i-1] IN
    IF l.k = "as" THEN (IF (r = "f" /\ i # 2) \/ l.r # r THEN BadE ELSE Chain(q,i-1,[k |-> "set", r |-> r, n |-> l.n, op |-> l.op, x |-> e],r))
    ELSE IF l.r # "f" THEN BadE
    ELSE IF i > 2 /\ (IF q[i-2].k = "as" THEN FALSE ELSE q[i-2].r = "s" \/ r = "f")
      THEN Chain(q,i-2,[k |-> IF r = "s" THEN "call2" ELSE "train3", r |-> r, f |-> l, w |-> q[i-2], x |-> e],r)
    ELSE Chain(q,i-1,[k |-> IF r = "s" THEN "call1" ELSE "train2", r |-> r, f |-> l, x |-> e],r)
Expr(ps) == IF Len(ps) = 1 THEN (IF ps[1].k = "as" THEN BadE ELSE ps[1])
            ELSE LET q == Merge1(ps,1,<<>>) z == q[Len(q)] IN
                 IF \E i \in 1..Len(q) : q[i].k = BAD THEN BadE
                 ELSE IF z.k = "as" THEN BadE
                 ELSE Chain(q,Len(q),z,z.r)
--------------------------------------------------------------------------
(* statements, lists and parentheses: close is the closing bracket, or 0     *)
BadS == [ok |-> FALSE, i |-> 0, st |-> <<>>]
RECURSIVE Stmts(_,_,_,_,_)
Flush(ps,st) == IF ps = <<>> THEN st ELSE Append(st,Expr(ps))
Ends(ps,st,i) == LET q == Flush(ps,st) IN IF \E j \in 1..Len(q) : q[j].k = BAD THEN BadS ELSE [ok |-> TRUE, i |-> i, st |-> q]
IsP(t,c) == IF t.k = "p" THEN t.c = c ELSE FALSE
Stmts(tk,i,close,ps,st) ==
  IF i > Len(tk) THEN (IF close = 0 THEN Ends(ps,st,i) ELSE BadS)
  ELSE LET t == tk[i] IN
    IF IsP(t,close) THEN Ends(ps,st,i+1)
    ELSE IF t.k = "sep" THEN (IF close = 41 THEN BadS ELSE Stmts(tk,i+1,close,<<>>,Flush(ps,st)))
    ELSE IF t.k = "lit" THEN Stmts(tk,i+1,close,Append(ps,t),st)
    ELSE IF t.k = "name" THEN
       (IF i < Len(tk) /\ (IsP(tk[i+1],8592) \/ IsP(tk[i+1],8617)) THEN Stmts(tk,i+2,close,Append(ps,[k |-> "as", r |-> t.r, n |-> t.n, op |-> tk[i+1].c]),st)
        ELSE Stmts(tk,i+1,close,Append(ps,t),st))
    ELSE IF t.c = 40 THEN
       LET q == Stmts(tk,i+1,41,<<>>,<<>>) IN IF ~q.ok \/ Len(q.st) # 1 THEN BadS ELSE Stmts(tk,q.i,close,Append(ps,q.st[1]),st)
    ELSE IF t.c = 10216 THEN
       LET q == Stmts(tk,i+1,10217,<<>>,<<>>) IN IF ~q.ok THEN BadS ELSE Stmts(tk,q.i,close,Append(ps,[k |-> "list", r |-> "s", l |-> q.st]),st)
    ELSE IF t.c = 46 THEN
       (IF ps = <<>> \/ i = Len(tk) THEN BadS
        ELSE LET o == ps[Len(ps)] IN
             IF o.k = "as" \/ o.r # "s" \/ tk[i+1].k # "name" THEN BadS
             ELSE Stmts(tk,i+2,close,Append(SubSeq(ps,1,Len(ps)-1),[k |-> "fld", r |-> tk[i+1].r, o |-> o, n |-> tk[i+1].n]),st))
    ELSE BadS
--------------------------------------------------------------------------
(* every variable is set before it is used, in the order of evaluation       *)
UNDEF == {<<0>>}
RECURSIVE Defs(_,_)
DefSeq(l,d) == FoldLeft(LAMBDA a,e : IF a = UNDEF THEN a ELSE Defs(e,a), d, l)
Defs(e,d) ==
  CASE e.k = "lit" -> d
    [] e.k = "name" -> IF e.n \in d THEN d ELSE UNDEF
    [] e.k = "fld" -> Defs(e.o,d)
    [] e.k = "list" -> DefSeq(e.l,d)
    [] e.k = "set" -> LET q == Defs(e.x,d) IN IF q = UNDEF THEN q ELSE IF e.op = 8617 /\ e.n \notin q THEN UNDEF ELSE q \cup {e.n}
    [] e.k = "m1" -> DefSeq(<<e.m,e.f>>,d)
    [] e.k = "m2" -> DefSeq(<<e.g,e.m,e.f>>,d)
    [] e.k \in {"call1","train2"} -> DefSeq(<<e.x,e.f>>,d)
    [] e.k \in {"call2","train3"} -> DefSeq(<<e.x,e.f,e.w>>,d)
\* a compiled text: a block with arguments, or statements; or BAD
Compile(s) ==
  LET tk == Toks(s,1,<<>>) IN
  IF \E i \in 1..Len(tk) : tk[i].k = BAD THEN [k |-> BAD]
  ELSE LET n0 == {i \in 1..Len(tk) : tk[i].k # "sep"}
           args == \E i \in 1..Len(tk) : (IF tk[i].k = "name" THEN tk[i].n \in {<<120168>>,<<120169>>} ELSE FALSE)
           i0 == IF n0 = {} THEN 0 ELSE CHOOSE i \in n0 : \A j \in n0 : i <= j
           blk == i0 # 0 /\ IsP(tk[i0],123)
           q == IF blk THEN Stmts(tk,i0+1,125,<<>>,<<>>) ELSE Stmts(tk,1,0,<<>>,<<>>)
       IN IF i0 = 0 \/ ~q.ok \/ (args /\ ~blk) THEN [k |-> BAD]
          ELSE IF q.st = <<>> \/ \E j \in q.i..Len(tk) : tk[j].k # "sep" THEN [k |-> BAD]
          ELSE IF DefSeq(q.st,IF args THEN {<<120168>>,<<120169>>} ELSE {}) = UNDEF THEN [k |-> BAD]
          ELSE [k |-> IF args THEN "block" ELSE "now", st |-> q.st]
--------------------------------------------------------------------------
(* evaluation: right to left; r = [v value, e environment, o output]; an     *)
(* absent 𝕨 makes a call monadic, and a call on it nothing; elsewhere it is  *)
(* an error                                                                  *)
R(v,z) == [z EXCEPT !.v = v]
Stop(z) == z.v = ERR \/ z.v = NC
Val(z) == IF z.v = NOW THEN R(ERR,z) ELSE z      \* where a value is required
TermOf(v) == IF IsFnV(v) THEN v[3] ELSE [k |-> "c", v |-> v]
Part(v) == IF IsFnV(v) THEN v[3] ELSE [k |-> "m1", n |-> "const", f |-> [k |-> "c", v |-> v]]
Known(v) == IsFnV(v) \/ IsData(v)
\* a function list, as an operand of ◶
FnList(v) == v[1] = 7 /\ Len(v) = 3 /\ v[2] = 204
StrV(v) == IF v[1] # 2 THEN FALSE ELSE Len(v[2]) = 1 /\ \A i \in 1..Len(v[3]) : v[3][i][1] = 1
RECURSIVE Eval(_,_), EvalSeq(_,_,_), ListEl(_,_,_), HasOut(_)
HasOut(t) == CASE t.k = "out" -> TRUE
               [] t.k = "m1" -> HasOut(t.f)
               [] t.k = "m2" -> HasOut(t.f) \/ (IF t.g.k = "fl" THEN \E i \in 1..Len(t.g.fs) : HasOut(t.g.fs[i]) ELSE HasOut(t.g))
               [] t.k = "t2" -> HasOut(t.g) \/ HasOut(t.h)
               [] t.k = "t3" -> HasOut(t.f) \/ HasOut(t.g) \/ HasOut(t.h)
               [] OTHER -> FALSE
\* an array with an element about which nothing is claimed
RECURSIVE HasNC(_)
HasNC(v) == IF v = NC THEN TRUE ELSE IF v[1] # 2 THEN FALSE ELSE \E i \in 1..Len(v[3]) : HasNC(v[3][i])
CallV(f,w,x,z) ==
  IF x = NOW THEN R(NOW,z)
  ELSE IF IsData(f) THEN R(f,z)
  ELSE IF ~IsFnV(f) THEN R(NC,z)
  ELSE IF f[3].k = "out" THEN (IF w # NOW \/ x[1] = 7 THEN R(NC,z) ELSE IF x[1] # 2 THEN R(ERR,z) ELSE IF Len(x[2]) # 1 THEN R(ERR,z) ELSE IF ~StrV(x) THEN R(NC,z)
                               ELSE [z EXCEPT !.v = x, !.o = @ \o [i \in 1..Len(x[3])+1 |-> IF i > Len(x[3]) THEN 10 ELSE x[3][i][2]]])
  ELSE IF HasOut(f[3]) \/ x[1] = 7 \/ w[1] = 7 THEN R(NC,z)
  ELSE LET v == Ap(f[3],w,x) IN R(IF HasNC(v) THEN NC ELSE v,z)
EvalSeq(l,i,z) == IF i > Len(l) THEN z ELSE LET q == Eval(l[i],z) IN IF Stop(q) THEN q ELSE EvalSeq(l,i+1,q)
\* elements of a list, evaluated in order: a has the values so far
ListEl(l,z,a) == IF Len(a) = Len(l) THEN (IF \E i \in 1..Len(a) : a[i][1] = 7 THEN (IF \A i \in 1..Len(a) : Known(a[i]) THEN R(<<7,204,a>>,z) ELSE R(NC,z)) ELSE R(List(a),z))
                 ELSE LET q == Val(Eval(l[Len(a)+1],z)) IN IF Stop(q) THEN q ELSE ListEl(l,q,Append(a,q.v))
Eval(e,z) ==
  CASE e.k = "lit" -> R(e.v,z)
    [] e.k = "name" -> R(z.e[e.n],z)
    [] e.k = "list" -> ListEl(e.l,z,<<>>)
    [] e.k = "fld" -> LET o == Val(Eval(e.o,z)) IN
                      IF Stop(o) THEN o
                      ELSE IF o.v[1] # 7 THEN R(ERR,o)
                      ELSE IF o.v[2] = 206 THEN (LET q == {i \in 1..Len(o.v[3]) : o.v[3][i][1] = e.n} IN IF q = {} THEN R(ERR,o) ELSE R(o.v[3][CHOOSE i \in q : TRUE][2],o))
                      ELSE IF o.v[2] = 205 THEN R(NC,o) ELSE R(ERR,o)
    [] e.k = "set" -> LET x == Val(Eval(e.x,z)) IN
                      IF Stop(x) THEN x ELSE IF e.op = 8592 /\ e.n \in DOMAIN x.e THEN R(NC,x)
                      ELSE [x EXCEPT !.e = [n \in DOMAIN x.e \cup {e.n} |-> IF n = e.n THEN x.v ELSE x.e[n]]]
    [] e.k = "m1" -> LET m == Eval(e.m,z) f == Val(Eval(e.f,m)) IN
                     IF Stop(f) THEN f ELSE IF ~Known(f.v) THEN R(NC,f) ELSE R(FnV([k |-> "m1", n |-> m.v[3], f |-> TermOf(f.v)]),f)
    [] e.k = "m2" -> LET g == Val(Eval(e.g,z)) IN
                     IF Stop(g) THEN g
                     ELSE LET m == Eval(e.m,g) f == Val(Eval(e.f,m)) IN
                          IF Stop(f) THEN f
                          ELSE IF m.v[3] = "cond" /\ Known(f.v) /\ (FnList(g.v) \/ (g.v[1] = 2 /\ Rk(g.v) = 1))
                               THEN R(FnV([k |-> "m2", n |-> "cond", f |-> TermOf(f.v), g |-> [k |-> "fl", fs |-> LET l == IF FnList(g.v) THEN g.v[3] ELSE g.v[3] IN [i \in 1..Len(l) |-> TermOf(l[i])]]]),f)
                          ELSE IF ~Known(g.v) \/ ~Known(f.v) \/ m.v[3] = "under" THEN R(NC,f)
                          ELSE R(FnV([k |-> "m2", n |-> m.v[3], f |-> TermOf(f.v), g |-> TermOf(g.v)]),f)
    [] e.k \in {"call1","train2"} ->
         LET x == Eval(e.x,z) IN
         IF Stop(x) THEN x
         ELSE LET f == Eval(e.f,x) IN
              IF Stop(f) THEN f
              ELSE IF e.k = "call1" THEN CallV(f.v,NOW,x.v,f)
              ELSE IF ~Known(f.v) \/ ~Known(x.v) THEN R(NC,f) ELSE R(FnV([k |-> "t2", g |-> Part(f.v), h |-> Part(x.v)]),f)
    [] e.k \in {"call2","train3"} ->
         LET x == Eval(e.x,z) IN
         IF Stop(x) THEN x
         ELSE LET f == Eval(e.f,x) IN
              IF Stop(f) THEN f
              ELSE LET w == Eval(e.w,f) IN
                   IF Stop(w) THEN w
                   ELSE IF e.k = "call2" THEN CallV(f.v,w.v,x.v,w)
                   ELSE IF ~Known(f.v) \/ ~Known(x.v) THEN R(NC,w)
                   ELSE IF w.v = NOW THEN R(FnV([k |-> "t2", g |-> Part(f.v), h |-> Part(x.v)]),w)
                   ELSE IF ~Known(w.v) THEN R(NC,w)
                   ELSE R(FnV([k |-> "t3", f |-> TermOf(w.v), g |-> Part(f.v), h |-> Part(x.v)]),w)
Z0 == [v |-> ZERO, e |-> <<>>, o |-> <<>>]
RunBody(st,env,o) == Val(EvalSeq(st,1,[v |-> ZERO, e |-> env, o |-> o]))
\* calling a result with 𝕨 and 𝕩
ArgEnv(w,x) == [n \in {<<120168>>,<<120169>>} |-> IF n = <<120169>> THEN x ELSE w]
--------------------------------------------------------------------------
(* the response to running a text: <<kind, output, results>>: 9 error,       *)
(* 0 data, 10 modifier, 7 function together with its results on given        *)
(* arguments, called with one and then with two; TRUE where nothing is claimed *)
Unclaimed == <<8>>
Res(z) == IF z.v = NC THEN NC ELSE IF z.v = ERR THEN ERR ELSE IF IsData(z.v) THEN z.v ELSE NC
Expect(s,w,x) ==
  LET c == Compile(s) IN
  IF c.k = BAD THEN <<9,<<>>,<<>>>>
  ELSE IF c.k = "block" THEN
    LET a == RunBody(c.st,ArgEnv(NOW,x),<<>>) b == RunBody(c.st,ArgEnv(w,x),a.o) IN
    IF a.v = NC \/ b.v = NC THEN Unclaimed ELSE <<7,b.o,<<Res(a),Res(b)>>>>
  ELSE LET z == RunBody(c.st,<<>>,<<>>) IN
    IF z.v = NC THEN Unclaimed
    ELSE IF z.v = ERR THEN <<9,z.o,<<>>>>
    ELSE IF IsData(z.v) THEN <<0,z.o,<<z.v>>>>
    ELSE IF z.v[2] = 201 THEN <<10,z.o,<<>>>>
    ELSE IF ~IsFnV(z.v) THEN Unclaimed
    ELSE LET a == CallV(z.v,NOW,x,z) IN
         IF a.v = NC THEN Unclaimed
         ELSE LET b == CallV(z.v,w,x,[a EXCEPT !.v = ZERO]) IN IF b.v = NC THEN Unclaimed ELSE <<7,b.o,<<Res(a),Res(b)>>>>
TextOk(h,o) == Len(h) = Len(o) /\ \A i \in 1..Len(h) :
  LET e == Expect(h[i][2],h[i][3],h[i][4]) r == o[i] IN
  \/ IF e = Unclaimed THEN r[1] # 5 ELSE e[1] = r[1] /\ e[2] = r[2] /\ Len(e[3]) = Len(r[3]) /\ \A k \in 1..Len(e[3]) : (r[3][k] = <<4>> \/ Agree(e[3][k],r[3][k]))
  \/ PrintT(<<"AT",i,e>>) /\ FALSE
=============================================================================
