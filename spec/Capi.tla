-------------------------------- MODULE Capi --------------------------------
(* The embedding interface: a program holds handles, each owning one value.   *)
(* Making, copying, reading, calling and releasing through bqn_*; functions   *)
(* bound to C callbacks get a copy of their object and own their arguments.   *)
(* State: H - the values of the handles (Gone once released); F - what the    *)
(* functions <<7,20+k>> within values are; L - calls seen by callbacks so far;   *)
(* err - an error was caught (what it interrupted stays allocated until the  *)
(* interpreter is next at top level, so memory is not claimed afterwards);    *)
(* dead - something unspecified happened, nothing is claimed any more.        *)
(* Functions: <<"p",term>> <<"b",object,behaviour,slot>> <<"each",v>>         *)
(* <<"fold",v>> <<"swap",v>> <<"ns",names,values>>, v a value that is called. *)
EXTENDS BQN
Gone == <<6>>
CInit == [H |-> <<>>, F |-> <<>>, L |-> <<>>, err |-> FALSE, dead |-> FALSE]
CList(vs) == <<2,<<Len(vs)>>,vs>>
CNum(n) == <<0,n>>
RECURSIVE View(_,_)
View(F,v) == IF v[1] = 7 THEN <<7,IF F[v[2]-20][1] = "ns" THEN 106 ELSE 103>> ELSE IF v[1] = 2 THEN <<2,v[2],<<>> \o [i \in 1..Len(v[3]) |-> View(F,v[3][i])]>> ELSE v
RECURSIVE HasBad(_)
HasBad(v) == v[1] >= 8 \/ (v[1] = 2 /\ \E i \in 1..Len(v[3]) : HasBad(v[3][i]))
Whole(t) == ~((t.k = "p" /\ t.n \in {"pair","ltack","rtack"}) \/ (t.k = "m1" /\ t.n = "const"))
\* calling a value: state and result
RECURSIVE CallV(_,_,_,_)
CallV(st,f,w,x) ==
  IF st.dead THEN <<st,NC>> ELSE
  IF f[1] # 7 THEN <<st,f>> ELSE
  LET d == st.F[f[2]-20] IN CASE
     d[1] = "p" /\ (w[1] = 7 \/ x[1] = 7) /\ Whole(d[2].f) -> <<[st EXCEPT !.dead = TRUE],NC>>  \* functions as data of primitives: not specified
  [] d[1] = "p" -> LET q == Ap(d[2].f,w,x) r == IF q = ERR THEN Ap(d[2].g,w,x) ELSE q s1 == IF q = ERR THEN [st EXCEPT !.err = TRUE] ELSE st IN \* f⎊g
        IF HasBad(r) THEN <<[st EXCEPT !.dead = TRUE],NC>> ELSE <<s1,r>>
  [] d[1] = "b" ->
     LET s1 == [st EXCEPT !.L = Append(@,<<View(st.F,d[2]),View(st.F,w),View(st.F,x)>>)] b == d[3] IN (CASE
        b[1] = "x" -> <<s1,x>> [] b[1] = "w" -> <<s1,IF w = Gone THEN x ELSE w>> [] b[1] = "obj" -> <<s1,d[2]>> [] b[1] = "k" -> <<s1,b[2]>>
     [] b[1] = "pair" -> <<s1,CList(IF w = Gone THEN <<d[2],x>> ELSE <<d[2],w,x>>)>>
     [] b[1] = "keep" -> <<[s1 EXCEPT !.H[d[4]] = x],x>>
     [] b[1] = "call" -> IF st.H[b[2]] = Gone THEN <<s1,x>> ELSE CallV(s1,st.H[b[2]],Gone,x)
     [] b[1] = "drop" -> <<[s1 EXCEPT !.H[b[2]] = Gone],x>>)
  [] d[1] = "each" ->
     IF x[1] # 2 THEN LET r == CallV(st,d[2],Gone,x) IN <<r[1],<<2,<<>>,<<r[2]>>>>>>
     ELSE LET r == FoldLeft(LAMBDA a,e : LET q == CallV(a[1],d[2],Gone,e) IN <<q[1],Append(a[2],q[2])>>,<<st,<<>>>>,x[3]) IN <<r[1],<<2,x[2],r[2]>>>>
  [] d[1] = "fold" ->   \* caught: the text "no" when there is nothing to fold
     IF x[1] # 2 \/ Len(IF x[1] = 2 THEN x[2] ELSE <<>>) # 1 \/ (x[1] = 2 /\ x[3] = <<>>) THEN <<[st EXCEPT !.err = TRUE],CList(<<<<1,110>>,<<1,111>>>>)>>
     ELSE LET n == Len(x[3]) IN FoldLeft(LAMBDA a,i : CallV(a[1],d[2],x[3][n-i],a[2]),<<st,x[3][n]>>,[i \in 1..n-1 |-> i])
  [] d[1] = "ns" -> <<st,f>>
  [] d[1] = "swap" -> CallV(st,d[2],x,IF w = Gone THEN x ELSE w)
\* which element types all of a list of values fit in: 1 i8, 2 i16, 3 i32, 4 f64, 5 c8, 6 c16, 7 c32
IsNumV(e) == e[1] \in {0,3}
BigI32(v) == (v[2] \in (16848..16863) \cup (49616..49631) /\ v[5] = 0 /\ v[4] % 64 = 0) \/ v = <<3,49632,0,0,0>>
Fits(e,t) == CASE t = 1 -> e[1] = 0 /\ e[2] \in (-128)..127 [] t = 2 -> e[1] = 0 /\ e[2] \in (-32768)..32767
  [] t = 3 -> e[1] = 0 \/ (e[1] = 3 /\ BigI32(e)) [] t = 4 -> IsNumV(e)
  [] t = 5 -> e[1] = 1 /\ e[2] < 256 [] t = 6 -> e[1] = 1 /\ e[2] < 65536 [] t = 7 -> e[1] = 1
AllFit(r,t) == \A i \in 1..Len(r) : Fits(r[i],t)
Types(r) == SelectSeq(<<1,2,3,4,5,6,7>>,LAMBDA t : AllFit(r,t))
RECURSIVE Utf8(_)
Utf8(b) == IF b = <<>> THEN <<>> ELSE LET c == b[1] n == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4 r(k) == b[k]-128 IN
  <<<<1,CASE n = 1 -> c [] n = 2 -> (c-192)*64+r(2) [] n = 3 -> ((c-224)*64+r(2))*64+r(3) [] n = 4 -> (((c-240)*64+r(2))*64+r(3))*64+r(4)>>>> \o Utf8(SubSeq(b,n+1,Len(b)))
Prodn(s) == FoldLeft(LAMBDA a,b : a*b,1,s)
FnIdx(names,n) == LET q == SelectSeq([i \in 1..Len(names) |-> i],LAMBDA i : names[i] = n) IN IF q = <<>> THEN 0 ELSE q[1]
PushV(st,v) == [st EXCEPT !.H = Append(@,v)]
\* a new function value on top
PushF(st,d) == [st EXCEPT !.F = Append(@,d), !.H = Append(@,<<7,Len(st.F)+21>>)]
\* a step gives the state and what is seen, before the calls of callbacks are put in front
CStep0(st,op) ==
  LET h == IF op[1] \notin {"num","chr","arr","vec","objs","utf8","eval","ns","prim","lib","all","gc","mem"} THEN st.H[op[2]] ELSE <<0,0>>
      isA == h[1] = 2
      P(s,v) == <<PushV(s,v),View(s.F,v)>> IN CASE
     op[1] = "num" -> P(st,op[2])
  [] op[1] = "chr" -> P(st,<<1,op[2]>>)
  [] op[1] = "arr" -> P(st,<<2,op[3],op[4]>>)
  [] op[1] = "vec" -> P(st,CList(op[3]))
  [] op[1] = "objs" -> \* takes over the handles it is given
     LET vs == <<>> \o [i \in 1..Len(op[3]) |-> LET q == st.H[op[3][i]] IN IF q = Gone THEN CNum(0) ELSE q]
         s1 == [st EXCEPT !.H = [i \in 1..Len(@) |-> IF \E k \in 1..Len(op[3]) : op[3][k] = i THEN Gone ELSE @[i]]] IN P(s1,<<2,op[2],vs>>)
  [] op[1] = "utf8" -> P(st,CList(Utf8(op[2])))
  [] op[1] = "eval" -> P(st,op[3])
  [] op[1] = "prim" -> LET s == PushF(st,<<"p",op[2]>>) IN <<s,<<7,103>>>>
  [] op[1] = "ns" -> LET s == PushF(st,<<"ns",op[2],<<>> \o [i \in 1..Len(op[3]) |-> LET q == st.H[op[3][i]] IN IF q = Gone THEN CNum(0) ELSE q]>>) IN <<s,<<7,106>>>>
  [] op[1] = "bound" -> LET o == IF h = Gone THEN CNum(0) ELSE h s == PushF(st,<<"b",o,op[4],Len(st.H)+2>>) IN <<PushV(s,Gone),<<7,103>>>>
  [] op[1] \in {"each","fold","swap"} -> LET s == PushF(st,<<op[1],IF h = Gone THEN CNum(0) ELSE h>>) IN <<s,<<7,103>>>>
  [] op[1] = "copy" -> P(st,IF h = Gone THEN CNum(0) ELSE h)
  [] op[1] = "again" -> P(st,IF h = Gone THEN CNum(0) ELSE h)     \* through the language, made another way
  [] op[1] = "free" -> <<[st EXCEPT !.H[op[2]] = Gone],CNum(1)>>
  [] op[1] = "type" -> <<st,CNum(CASE h = Gone -> 9 [] h[1] = 2 -> 0 [] h[1] \in {0,3} -> 1 [] h[1] = 1 -> 2 [] OTHER -> View(st.F,h)[2]-100)>>
  [] op[1] = "atom" -> IF IsNumV(h) \/ h[1] = 1 THEN <<IF op[3] = 1 THEN [st EXCEPT !.H[op[2]] = Gone] ELSE st,h>> ELSE <<st,CNum(0)>>
  [] op[1] = "shape" -> IF ~isA THEN <<st,CNum(0)>> ELSE <<st,CList(<<CNum(Len(h[2])),CNum(Len(h[3]))>> \o [i \in 1..Len(h[2]) |-> CNum(h[2][i])])>>
  [] op[1] = "pick" -> P(st,IF ~isA \/ (isA /\ h[3] = <<>>) THEN CNum(0) ELSE h[3][(op[3] % Len(h[3]))+1])
  [] op[1] = "read" -> IF ~isA THEN <<st,CNum(0)>> ELSE LET t == Types(h[3]) IN <<st,CList(<<CNum(IF t = <<>> THEN 0 ELSE t[(op[3] % Len(t))+1])>> \o (IF t = <<>> THEN <<>> ELSE h[3]))>>
  [] op[1] = "robj" -> IF ~isA THEN <<st,CNum(0)>> ELSE <<st,View(st.F,CList(h[3]))>>
  [] op[1] = "direct" -> IF ~isA THEN <<st,CNum(0)>> ELSE <<st,CList(h[3])>>
  [] op[1] = "call1" -> LET x == st.H[op[3]] IN IF h = Gone \/ x = Gone THEN P(st,CNum(0)) ELSE LET r == CallV(st,h,Gone,x) IN P(r[1],r[2])
  [] op[1] = "call2" -> LET w == st.H[op[3]] x == st.H[op[4]] IN IF h = Gone \/ w = Gone \/ x = Gone THEN P(st,CNum(0)) ELSE LET r == CallV(st,h,w,x) IN P(r[1],r[2])
  [] op[1] = "has" -> IF h[1] # 7 \/ View(st.F,h) # <<7,106>> THEN <<st,CNum(0)>> ELSE <<st,CNum(IF FnIdx(st.F[h[2]-20][2],op[3]) = 0 THEN 0 ELSE 1)>>
  [] op[1] = "get" -> IF h[1] # 7 \/ View(st.F,h) # <<7,106>> THEN P(st,CNum(0)) ELSE LET i == FnIdx(st.F[h[2]-20][2],op[3]) IN P(st,IF i = 0 THEN CNum(0) ELSE st.F[h[2]-20][3][i])
  [] op[1] = "all" -> <<st,CList(<<>> \o [i \in 1..Len(st.H) |-> IF st.H[i] = Gone THEN CNum(0) ELSE View(st.F,st.H[i])])>>
  [] op[1] = "gc" -> <<st,CNum(0)>>
  [] op[1] = "mem" -> <<st,CNum(0)>>         \* once everything is released, memory is what it was
CStep(st,op) ==
  IF st.dead THEN <<st,<<<<>>,NC>>>> ELSE
  LET r == CStep0([st EXCEPT !.L = <<>>],op) IN IF r[1].dead THEN <<r[1],<<<<>>,NC>>>> ELSE <<r[1],<<r[1].L,r[2]>>>>
\* what was seen against what is expected; of direct access any element type that holds the elements, or none
CMatch(st,op,e,o) == \/ st.dead \/ (op[1] = "mem" /\ st.err)
  \/ /\ e[1] = o[1]
     /\ IF op[1] = "direct" /\ e[2][1] = 2
        THEN o[2][1] = 2 /\ LET t == o[2][3][1][2] IN t = 0 \/ (AllFit(e[2][3],t) /\ SubSeq(o[2][3],2,Len(o[2][3])) = e[2][3])
        ELSE e[2] = o[2]
=============================================================================
