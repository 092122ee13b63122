------------------------------- MODULE Calls -------------------------------
(* Calls of user functions.  Terms may hold recorder operands               *)
(*   [k |-> "r", i |-> id]                                                  *)
(* that stand for user functions: a call has an effect (it is appended to   *)
(* the log as <<id, w, x>>) and its result is the next value of the list    *)
(* st.r, or, when that list is empty, the list of its arguments; an <<9>>   *)
(* in st.r makes that call an error.  L gives the value and the final state *)
(* of an application, hence which calls are made, with what, in which order *)
(* and how many before an error.                                            *)
(*                                                                          *)
(* The second half specifies blocks: programs of the virtual machine whose   *)
(* function values are leaves [k |-> "v", v |-> value] of terms.             *)
EXTENDS BQN
RECURSIVE HasR(_), L(_,_,_,_), LRep(_,_,_,_,_), LUnder(_,_,_,_,_), ApplyV(_,_,_,_), UndoV(_,_,_,_,_), LUndo(_,_,_,_,_)
HasR(t) == CASE t.k = "r" \/ t.k = "v" -> TRUE
             [] t.k = "p" -> t.n \in {"assert","curerr","overflow"}
             [] t.k = "m1" -> t.n = "undo" \/ HasR(t.f)
             [] t.k = "m2" -> HasR(t.f) \/ (IF t.g.k = "fl" THEN \E i \in 1..Len(t.g.fs) : HasR(t.g.fs[i]) ELSE HasR(t.g))
             [] t.k = "t2" -> HasR(t.g) \/ HasR(t.h)
             [] t.k = "t3" -> HasR(t.f) \/ HasR(t.g) \/ HasR(t.h)
             [] OTHER -> FALSE
\* the log of an erroneous mapping may end anywhere after the call that decided it
CallR(t,w,x,st) ==
  LET n == Len(st.log) + 1
      v == IF st.r = <<>> THEN List(IF w = NOW THEN <<x>> ELSE <<w,x>>) ELSE st.r[((n-1) % Len(st.r)) + 1]
  IN <<v, [st EXCEPT !.log = Append(@, <<t.i,w,x>>)]>>
RChk(p) == IF IsBad(p[1]) THEN p ELSE IF Tainted(p[1]) THEN <<NC,p[2]>> ELSE p
\* then(p, next): go on with the value unless it is an error
\* a sequence of n applications A(i,st), i from 1, giving an array of shape sh
LSeq(sh,n,A(_,_),st) ==
  LET q == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a
                                 ELSE LET p == A(i,a[2]) IN IF IsBad(p[1]) THEN p ELSE <<Append(a[1],p[1]), p[2]>>,
                    <<<<0>>,st>>, [i \in 1..n |-> i])
  IN IF IsBad(q[1]) THEN q ELSE <<Arr(sh, Tail(q[1])), q[2]>>
\* fold from position n down to 1 of the values s
LFold(t,s,n,a0,st) == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a ELSE RChk(L(t,s[n-i],a[1],a[2])), <<a0,st>>, [i \in 1..n |-> i-1])
LMap(t,w,x,st) ==
  IF w = NOW THEN LET y == AtL(x) IN LSeq(y[2], Len(y[3]), LAMBDA i,s : L(t,NOW,y[3][i],s), st)
  ELSE LET a == AtL(w) b == AtL(x) an == Len(a[3]) bn == Len(b[3]) IN
    IF ~PrefixOK(a[2],b[2]) THEN <<ERR,st>>
    ELSE IF Len(a[2]) >= Len(b[2]) THEN LET c == IF bn = 0 THEN 1 ELSE an \div bn IN LSeq(a[2], an, LAMBDA i,s : L(t,a[3][i],b[3][(i-1) \div c + 1],s), st)
    ELSE LET c == IF an = 0 THEN 1 ELSE bn \div an IN LSeq(b[2], bn, LAMBDA i,s : L(t,a[3][(i-1) \div c + 1],b[3][i],s), st)
LTable(t,w,x,st) ==
  LET a == AtL(w) b == AtL(x) bn == Len(b[3]) IN
  LSeq(a[2] \o b[2], Len(a[3])*bn, LAMBDA i,s : L(t, a[3][(i-1) \div bn + 1], b[3][((i-1) % bn) + 1], s), st)
\* the message of a generic error: some list of characters
SOMESTR == <<7,0>>
AssertP(w,x,st) == IF x = ONE THEN <<x,st>>
                   ELSE IF w # NOW THEN <<<<9,w>>,st>>
                   ELSE IF IsNum(x) THEN <<<<9,SOMESTR>>,st>> ELSE <<<<9,x>>,st>>
IsErr(v) == v[1] = 9
MsgOf(e) == IF Len(e) = 2 THEN e[2] ELSE SOMESTR
\* the handler G of F⎊G with the error e of F current
LCatch(t,w,x,r) == LET q == L(t,w,x,[r[2] EXCEPT !.err = <<MsgOf(r[1])>>]) IN <<q[1], [q[2] EXCEPT !.err = r[2].err]>>
LMerge(p) == IF IsBad(p[1]) THEN p ELSE LET m == Merge(p[1]) IN <<m, [p[2] EXCEPT !.pre = @ \/ m = ERR]>>
LRank(t,w,x,rm,rw,rx,st) ==
  IF w = NOW THEN
    LET er == EffRank(rm,Rk(x)) fr == FrameOf(x,er)
    IN LMerge(LSeq(fr, Prod(fr), LAMBDA i,s : L(t,NOW,CellAt(x,er,i-1),s), st))
  ELSE
    LET ew == EffRank(rw,Rk(w)) ex == EffRank(rx,Rk(x)) fw == FrameOf(w,ew) fx == FrameOf(x,ex) nw == Prod(fw) nx == Prod(fx) IN
    IF ~PrefixOK(fw,fx) THEN <<ERR,st>>
    ELSE LET fr == IF Len(fw) >= Len(fx) THEN fw ELSE fx
             n == Prod(fr)
             cw == IF nw = 0 THEN 1 ELSE n \div nw
             cx == IF nx = 0 THEN 1 ELSE n \div nx
         IN LMerge(LSeq(fr, n, LAMBDA i,s : L(t, CellAt(w,ew,(i-1) \div cw), CellAt(x,ex,(i-1) \div cx), s), st))
LScan(t,w,x,st) ==
  IF ~IsArr(x) \/ Rk(x) = 0 THEN <<ERR,st>>
  ELSE IF w # NOW /\ Sh(w) # CellSh(x) THEN <<ERR,st>>
  ELSE IF x[3] = <<>> THEN <<x,st>>
  ELSE LET c == Prod(CellSh(x)) r == x[3]
           q == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a
                                      ELSE LET p == IF i > c THEN RChk(L(t, a[1][i-c+1], r[i], a[2])) ELSE IF w = NOW THEN <<r[i],a[2]>> ELSE RChk(L(t,Rv(w)[i],r[i],a[2]))
                                           IN IF IsBad(p[1]) THEN p ELSE <<Append(a[1],p[1]),p[2]>>,
                         <<<<0>>,st>>, [i \in 1..Len(r) |-> i])
       IN IF IsBad(q[1]) THEN q ELSE <<Arr(x[2],Tail(q[1])),q[2]>>
LDepth0(t,w,x,st) ==
  LET RECURSIVE D(_,_,_)
      D(a,b,s) ==
        IF a = NOW THEN (IF IsArr(b) THEN LSeq(b[2], Len(b[3]), LAMBDA i,q : D(NOW,b[3][i],q), s) ELSE L(t,NOW,b,s))
        ELSE IF ~IsArr(a) /\ ~IsArr(b) THEN L(t,a,b,s)
        ELSE LET u == AtL(a) v == AtL(b) un == Len(u[3]) vn == Len(v[3]) IN
          IF ~PrefixOK(u[2],v[2]) THEN <<ERR,s>>
          ELSE IF Len(u[2]) >= Len(v[2]) THEN LET c == IF vn = 0 THEN 1 ELSE un \div vn IN LSeq(u[2], un, LAMBDA i,q : D(u[3][i],v[3][(i-1) \div c + 1],q), s)
          ELSE LET c == IF un = 0 THEN 1 ELSE vn \div un IN LSeq(v[2], vn, LAMBDA i,q : D(u[3][(i-1) \div c + 1],v[3][i],q), s)
  IN D(w,x,st)
LRep(t,w,x,n,st) == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a ELSE RChk(L(t,w,a[1],a[2])), <<x,st>>, [i \in 1..n |-> i])
\* all the intermediate results <<x, f x, ...>> for an array of counts
LReps(t,w,x,n,st) == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a ELSE LET p == RChk(L(t,w,a[1][Len(a[1])],a[2])) IN IF IsBad(p[1]) THEN p ELSE <<Append(a[1],p[1]),p[2]>>, <<<<0,x>>,st>>, [i \in 1..n |-> i])
RECURSIVE Counts(_), RepSub(_,_)
Counts(c) == IF IsArr(c) THEN UNION {Counts(c[3][i]) : i \in 1..Len(c[3])} ELSE {c}
RepSub(c,v) == IF IsArr(c) THEN Arr(c[2], [i \in 1..Len(c[3]) |-> RepSub(c[3][i],v)]) ELSE v[c[2]+2]
LUnder(steps,g,x,w,st) ==
  IF steps = <<>> THEN RChk(L(g,w,x,st))
  ELSE LET s == steps[1] y == Chk(Ap(s,NOW,x)) IN
    IF IsBad(y) THEN <<y,st>>
    ELSE LET p == LUnder(Tail(steps),g,y,w,st) IN
      IF IsBad(p[1]) THEN p
      \* with the inner result known the update is that of a constant
      ELSE <<UnderS(<<s>>, [k |-> "m1", n |-> "const", f |-> [k |-> "c", v |-> p[1]]], x, NOW), p[2]>>
L(t,w,x,st) ==
  IF ~HasR(t) THEN <<Chk(Ap(t,w,x)),st>>
  ELSE CASE t.k = "r" -> CallR(t,w,x,st)
    [] t.k = "v" -> ApplyV(t.v,w,x,st)
    [] t.k = "p" /\ t.n = "assert" -> AssertP(w,x,st)
    [] t.k = "p" /\ t.n = "overflow" -> <<ERR,st>>     \* recursion without end
    [] t.k = "p" /\ t.n = "curerr" -> IF w # NOW \/ st.err = <<>> THEN <<ERR,st>> ELSE <<st.err[1],st>>
    [] t.k = "t2" -> LET r == RChk(L(t.h,w,x,st)) IN IF IsBad(r[1]) THEN r ELSE L(t.g,NOW,r[1],r[2])
    [] t.k = "t3" -> LET r == RChk(L(t.h,w,x,st)) IN IF IsBad(r[1]) THEN r
                     ELSE LET l == RChk(L(t.f,w,x,r[2])) IN IF IsBad(l[1]) THEN l ELSE L(t.g,l[1],r[1],l[2])
    [] t.k = "m1" ->
       (CASE t.n = "swap" -> L(t.f, x, IF w = NOW THEN x ELSE w, st)
          [] t.n = "const" -> IF t.f.k = "v" THEN <<t.f.v,st>> ELSE <<NC,st>>
          [] t.n = "undo" -> LUndo(t.f,w,x,IF w = NOW THEN 3 ELSE 4,st)
          [] t.n = "each" -> LMap(t.f,w,x,st)
          [] t.n = "tbl" -> IF w = NOW THEN LMap(t.f,w,x,st) ELSE LTable(t.f,w,x,st)
          [] t.n = "fold" ->
               IF ~IsArr(x) \/ Rk(x) # 1 THEN <<ERR,st>>
               ELSE LET s == x[3] n == Len(s) IN
                 IF w # NOW THEN LFold(t.f,s,n,w,st)
                 ELSE IF n = 0 THEN <<ERR,st>> ELSE LFold(t.f,s,n-1,s[n],st)
          [] t.n = "insert" ->
               IF ~IsArr(x) \/ Rk(x) = 0 THEN <<ERR,st>>
               ELSE LET n == CellN(x) s == <<>> \o [i \in 1..n |-> CellV(x,i-1)] IN
                 IF w # NOW THEN LFold(t.f,s,n,w,st)
                 ELSE IF n = 0 THEN <<ERR,st>> ELSE LFold(t.f,s,n-1,s[n],st)
          [] t.n = "scan" -> LScan(t.f,w,x,st)
          [] t.n = "cells" -> LRank(t.f,w,x,-1,-1,-1,st)
          [] OTHER -> <<NC,st>>)
    [] t.k = "m2" ->
       (CASE t.n = "atop" -> LET r == RChk(L(t.g,w,x,st)) IN IF IsBad(r[1]) THEN r ELSE L(t.f,NOW,r[1],r[2])
          [] t.n = "over" -> LET r == RChk(L(t.g,NOW,x,st)) IN IF IsBad(r[1]) THEN r
                             ELSE IF w = NOW THEN L(t.f,NOW,r[1],r[2])
                             ELSE LET l == RChk(L(t.g,NOW,w,r[2])) IN IF IsBad(l[1]) THEN l ELSE L(t.f,l[1],r[1],l[2])
          [] t.n = "before" -> LET l == RChk(L(t.f,NOW,IF w = NOW THEN x ELSE w,st)) IN IF IsBad(l[1]) THEN l ELSE L(t.g,l[1],x,l[2])
          [] t.n = "after" -> LET r == RChk(L(t.g,NOW,x,st)) IN IF IsBad(r[1]) THEN r ELSE L(t.f,IF w = NOW THEN x ELSE w,r[1],r[2])
          [] t.n = "val" -> IF w = NOW THEN L(t.f,NOW,x,st) ELSE L(t.g,w,x,st)
          [] t.n = "catch" -> LET r == L(t.f,w,x,st) IN IF IsErr(r[1]) THEN LCatch(t.g,w,x,r) ELSE r
          [] t.n = "cond" -> LET c == RChk(L(t.f,w,x,st)) IN
               IF IsBad(c[1]) THEN c
               ELSE IF t.g.k # "fl" THEN <<NC,st>>
               ELSE IF IsArr(c[1]) \/ ~IsNum(c[1]) THEN <<IF IsArr(c[1]) THEN NC ELSE ERR,c[2]>>
               ELSE LET p == Ix(c[1],Len(t.g.fs)) IN IF p < 0 THEN <<ERR,c[2]>> ELSE L(t.g.fs[p+1],w,x,c[2])
          [] t.n = "repeat" -> LET c == RChk(L(t.g,w,x,st)) IN
               IF IsBad(c[1]) THEN c
               ELSE LET S == Counts(c[1]) IN
                 IF \E v \in S : v[1] # 0 THEN (IF \E v \in S : ~IsNum(v) \/ ~IsInteger(v) THEN <<ERR,c[2]>> ELSE <<NC,c[2]>>)
                 ELSE IF \E v \in S : v[2] < 0 THEN <<NC,c[2]>>
                 ELSE IF ~IsArr(c[1]) THEN LRep(t.f,w,x,c[1][2],c[2])
                 ELSE IF S = {} THEN <<c[1],c[2]>>
                 ELSE LET q == LReps(t.f,w,x,MaxS({v[2] : v \in S}),c[2]) IN IF IsBad(q[1]) THEN q ELSE <<RepSub(c[1],q[1]),q[2]>>
          [] t.n = "rank" -> LET c == RChk(L(t.g,w,x,st)) IN
               IF IsBad(c[1]) THEN c
               ELSE IF ~NumList(c[1]) \/ Len(Rv(c[1])) = 0 \/ Len(Rv(c[1])) > 3 \/ ~IntsOnly(c[1]) THEN <<NC,c[2]>>
               ELSE LET l == Ints(c[1]) n == Len(l)
                        rm == IF n = 3 THEN l[1] ELSE IF n = 2 THEN l[2] ELSE l[1]
                        rw == IF n = 3 THEN l[2] ELSE l[1]
                    IN LRank(t.f,w,x,rm,rw,l[n],c[2])
          [] t.n = "depth" -> IF t.g = [k |-> "c", v |-> ZERO] THEN LDepth0(t.f,w,x,st) ELSE <<NC,st>>
          [] t.n = "under" -> IF w # NOW \/ HasR(t.g) THEN <<NC,st>> ELSE LUnder(Steps(t.g),t.f,x,NOW,st))

--------------------------------------------------------------------------
(* Blocks.  A program is                                                     *)
(*   [objs |-> constants: [k |-> "c", v] or [k |-> "t", t |-> term] or        *)
(*             primitive modifiers [k |-> "pm", a |-> arity, n |-> name],     *)
(*    blocks |-> [ty, imm, b |-> five lists of body numbers: called           *)
(*               monadically, dyadically, and the three undo forms],          *)
(*    bodies |-> [code, nv, exp |-> exported <<name, slot>>, names]]          *)
(* Code is straight-line instructions <<op, a, b>>.  The state adds to the    *)
(* log: h, the heap of function-like objects (a function value is <<7,i>>);   *)
(* sc, the scopes [par, vars, bi]; p, the program; err, the current error;    *)
(* d, the depth of calls; hi, the highest current object.                     *)
(* A scope is never reused: each call of a block makes a new one.             *)
UNDEF == <<14>>          \* variable not yet defined
OPT == <<15>>            \* value in the course of being modified
MAXD == 150
IsFn(v) == v[1] = 7 /\ v[2] > 0
New(o,st) == LET h == Append(st.h,o) IN <<<<7,Len(h)>>, [st EXCEPT !.h = h]>>
RECURSIVE Anc(_,_,_)
Anc(st,s,d) == IF d = 0 THEN s ELSE Anc(st,st.sc[s].par,d-1)
SetVar(st,s,i,v) == [st EXCEPT !.sc[s].vars[i+1] = IF v[1] = 2 THEN <<2,v[2],<<>> \o v[3]>> ELSE v]
\* term standing for an operand
Leaf(v) == IF IsFn(v) THEN [k |-> "v", v |-> v] ELSE [k |-> "c", v |-> v]
Opnd(v,st) == IF IsFn(v) /\ st.h[v[2]].k = "t" THEN st.h[v[2]].t ELSE Leaf(v)
IsNs(v,st) == IsFn(v) /\ st.h[v[2]].k = "ns"
IsMd(v,st) == IsFn(v) /\ st.h[v[2]].k \in {"md","pm"}
\* field of a namespace: <<9>> when it is not exported
Fld(st,ns,name) ==
  LET o == st.h[ns[2]] e == st.p.bodies[st.sc[o.s].bi+1].exp
      I == {i \in 1..Len(e) : e[i][1] = name}
  IN IF I = {} THEN ERR ELSE LET v == st.sc[o.s].vars[e[MinS(I)][2]+1] IN IF v = UNDEF \/ v = OPT THEN NC ELSE v
\* the name of a variable
NameOf(st,s,i) == st.p.bodies[st.sc[s].bi+1].names[i+1]

RECURSIVE Get(_,_,_), SetRef(_,_,_,_,_), SetH(_,_,_,_)
\* read a target for modification, leaving its variables unavailable
Get(st,s,r) ==
  CASE r[1] = 20 -> LET f == Anc(st,s,r[2]) v == st.sc[f].vars[r[3]+1] IN
                    IF v = UNDEF \/ v = OPT THEN <<ERR,st>> ELSE <<v, SetVar(st,f,r[3],OPT)>>
    [] r[1] \in {21,25} ->
         LET q == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a ELSE LET p == Get(a[2],s,r[2][i]) IN IF IsBad(p[1]) THEN p ELSE <<Append(a[1],p[1]),p[2]>>,
                           <<<<0>>,st>>, [i \in 1..Len(r[2]) |-> i])
         IN IF IsBad(q[1]) THEN q ELSE IF r[1] = 21 THEN <<List(Tail(q[1])),q[2]>> ELSE LET m == Merge(List(Tail(q[1]))) IN <<m,q[2]>>
    [] OTHER -> <<NC,st>>
\* cells of x for [a,b]←x
CellsOf(x) == IF Rk(x) = 1 THEN [i \in 1..Len(x[3]) |-> Unit(x[3][i])] ELSE [i \in 1..CellN(x) |-> CellV(x,i-1)]
SetAll(st,s,rs,xs,upd) == FoldLeft(LAMBDA a,i : IF IsBad(a[1]) THEN a ELSE SetRef(a[2],s,rs[i],xs[i],upd), <<ONE,st>>, [i \in 1..Len(rs) |-> i])
SetRef(st,s,r,x,upd) ==
  CASE r[1] = 20 -> LET f == Anc(st,s,r[2]) IN
                    IF upd /\ st.sc[f].vars[r[3]+1] = UNDEF THEN <<ERR,st>> ELSE <<ONE, SetVar(st,f,r[3],x)>>
    [] r[1] = 22 -> <<ONE,st>>
    [] r[1] = 21 ->
         IF IsArr(x) /\ Sh(x) = <<Len(r[2])>> THEN SetAll(st,s,r[2],x[3],upd)
         ELSE IF ~IsNs(x,st) THEN <<ERR,st>>
         ELSE FoldLeft(LAMBDA a,i :
                IF IsBad(a[1]) THEN a
                ELSE LET c == r[2][i] IN
                  IF c[1] = 20 THEN LET v == Fld(a[2],x,NameOf(a[2],Anc(a[2],s,c[2]),c[3])) IN IF IsBad(v) THEN <<v,a[2]>> ELSE SetRef(a[2],s,c,v,upd)
                  ELSE IF c[1] = 23 THEN LET v == Fld(a[2],x,c[3]) IN IF IsBad(v) THEN <<v,a[2]>> ELSE SetRef(a[2],s,c[2],v,upd)
                  ELSE <<ERR,a[2]>>,
              <<ONE,st>>, [i \in 1..Len(r[2]) |-> i])
    [] r[1] = 25 ->
         IF ~IsArr(x) \/ Rk(x) = 0 THEN <<ERR,st>>
         ELSE IF x[2][1] # Len(r[2]) THEN <<ERR,st>>
         ELSE SetAll(st,s,r[2],CellsOf(x),upd)
    [] r[1] = 23 -> <<ERR,st>>
    [] OTHER -> <<NC,st>>
\* headers: <<does it match, state>>
HAll(st,s,rs,xs) == FoldLeft(LAMBDA a,i : IF a[1] = FALSE THEN a ELSE SetH(a[2],s,rs[i],xs[i]), <<TRUE,st>>, [i \in 1..Len(rs) |-> i])
SetH(st,s,r,x) ==
  CASE r[1] = 20 -> <<TRUE, SetVar(st,Anc(st,s,r[2]),r[3],x)>>
    [] r[1] = 22 -> <<TRUE,st>>
    [] r[1] = 24 -> <<r[2] = x, st>>
    [] r[1] = 21 ->
         IF IsArr(x) /\ Sh(x) = <<Len(r[2])>> THEN HAll(st,s,r[2],x[3])
         ELSE IF ~IsNs(x,st) THEN <<FALSE,st>>
         ELSE FoldLeft(LAMBDA a,i :
                IF a[1] = FALSE THEN a
                ELSE LET c == r[2][i] IN
                  IF c[1] = 20 THEN LET v == Fld(a[2],x,NameOf(a[2],Anc(a[2],s,c[2]),c[3])) IN IF v = ERR THEN <<FALSE,a[2]>> ELSE SetH(a[2],s,c,v)
                  ELSE IF c[1] = 23 THEN LET v == Fld(a[2],x,c[3]) IN IF v = ERR THEN <<FALSE,a[2]>> ELSE SetH(a[2],s,c[2],v)
                  ELSE <<FALSE,a[2]>>,
              <<TRUE,st>>, [i \in 1..Len(r[2]) |-> i])
    [] r[1] = 25 -> IF ~IsArr(x) \/ Rk(x) = 0 THEN <<FALSE,st>>
                    ELSE IF x[2][1] # Len(r[2]) THEN <<FALSE,st>> ELSE HAll(st,s,r[2],CellsOf(x))
    [] OTHER -> <<FALSE,st>>

RECURSIVE Run(_,_,_,_,_), Enter(_,_,_,_,_,_)
\* the j-th body of list li of block b, in a new scope inside psc, with the given variables gv
Enter(b,psc,li,j,gv,st) ==
  LET bs == st.p.blocks[b+1].b[li] IN
  IF j > Len(bs) THEN <<ERR,st>>             \* no such body, or no header matched
  ELSE IF st.d > MAXD \/ Len(st.sc) > 500 THEN <<NC,st>>
  ELSE LET bo == st.p.bodies[bs[j]+1]
           s2 == [st EXCEPT !.sc = Append(@, [par |-> psc, bi |-> bs[j], vars |-> gv \o [i \in 1..(bo.nv - Len(gv)) |-> UNDEF]]), !.d = @ + 1]
           r == Run([code |-> bo.code, b |-> b, psc |-> psc, li |-> li, j |-> j, gv |-> gv], 1, <<>>, Len(s2.sc), s2)
       IN <<r[1], [r[2] EXCEPT !.d = st.d]>>
CallB(b,psc,li,gv,st) == Enter(b,psc,li,1,gv,st)
Derive1(m,f,st) ==
  IF ~IsMd(m,st) THEN <<NC,st>>
  ELSE LET o == st.h[m[2]] IN
    IF o.k = "pm" THEN (IF o.a # 1 THEN <<NC,st>> ELSE New([k |-> "t", t |-> [k |-> "m1", n |-> o.n, f |-> IF o.n \in {"const","undo"} THEN Leaf(f) ELSE Opnd(f,st)]], st))
    ELSE IF o.ty # 1 THEN <<NC,st>>
    ELSE IF st.p.blocks[o.b+1].imm THEN CallB(o.b,o.s,1,<<m,f>>,st)
    ELSE New([k |-> "der", m |-> m, o |-> <<f>>], st)
GOp(n,g,st) == IF n = "cond" /\ IsArr(g) /\ Rk(g) = 1 THEN [k |-> "fl", fs |-> [i \in 1..Len(g[3]) |-> Opnd(g[3][i],st)]] ELSE Opnd(g,st)
Derive2(m,f,g,st) ==
  IF ~IsMd(m,st) THEN <<NC,st>>
  ELSE LET o == st.h[m[2]] IN
    IF o.k = "pm" THEN (IF o.a # 2 THEN <<NC,st>> ELSE New([k |-> "t", t |-> [k |-> "m2", n |-> o.n, f |-> Opnd(f,st), g |-> GOp(o.n,g,st)]], st))
    ELSE IF o.ty # 2 THEN <<NC,st>>
    ELSE IF st.p.blocks[o.b+1].imm THEN CallB(o.b,o.s,1,<<m,f,g>>,st)
    ELSE New([k |-> "der", m |-> m, o |-> <<f,g>>], st)
\* given variables of a call: 𝕤 𝕩 𝕨, for modifiers also 𝕣 𝕗 𝕘
Giv(v,o,w,x) == IF o.k = "clo" THEN <<v,x,w>> ELSE <<v,x,w,o.m>> \o o.o
ApplyV(v,w,x,st) ==
  IF ~IsFn(v) THEN <<v,st>>
  ELSE LET o == st.h[v[2]] IN
    CASE o.k = "t" -> L(o.t,w,x,st)
      [] o.k = "clo" -> CallB(o.b,o.s,IF w = NOW THEN 1 ELSE 2,Giv(v,o,w,x),st)
      [] o.k = "der" -> LET m == st.h[o.m[2]] IN CallB(m.b,m.s,IF w = NOW THEN 1 ELSE 2,Giv(v,o,w,x),st)
      [] o.k = "ns" -> <<v,st>>
      [] OTHER -> <<ERR,st>>                 \* modifiers cannot be called
UndoV(v,w,x,li,st) ==
  IF ~IsFn(v) THEN <<NC,st>>
  ELSE LET o == st.h[v[2]] IN
    CASE o.k = "t" -> LUndo(o.t,w,x,li,st)
      [] o.k = "clo" -> CallB(o.b,o.s,li,Giv(v,o,w,x),st)
      [] o.k = "der" -> LET m == st.h[o.m[2]] IN CallB(m.b,m.s,li,Giv(v,o,w,x),st)
      [] OTHER -> <<NC,st>>
\* undoing a term; li tells which: 3 one argument, 4 the right argument is wanted, 5 the left one
LUndo(t,w,x,li,st) ==
  CASE t.k = "v" -> UndoV(t.v,w,x,li,st)
    [] t.k = "m1" /\ t.n = "swap" /\ w # NOW -> LUndo(t.f,w,x,9-li,st)
    [] t.k = "m2" /\ t.n = "before" /\ t.f.k = "c" /\ w = NOW -> LUndo(t.g,t.f.v,x,4,st)
    [] t.k = "m2" /\ t.n = "after" /\ t.g.k = "c" /\ w = NOW -> LUndo(t.f,t.g.v,x,5,st)
    [] ~HasR(t) /\ li # 5 -> <<Chk(Undo(t,w,x)),st>>
    [] OTHER -> <<NC,st>>
\* values of more elements than are followed
RECURSIVE Size(_,_)
Size(v,m) == IF m > 1500 THEN m ELSE IF v[1] # 2 THEN m+1 ELSE FoldLeft(LAMBDA a,e : Size(e,a), m+1, v[3])
Big(v) == v[1] = 2 /\ (Len(v[3]) > 1000 \/ Size(v,0) > 1500)
\* result of a step that leaves one value in place of the top m of the stack
Force(v) == IF v[1] = 2 THEN <<2,v[2],<<>> \o v[3]>> ELSE v     \* (evaluates the elements now rather than again at each use)
Then(cx,pc,k,m,s,r) == IF IsBad(r[1]) THEN r ELSE IF Tainted(r[1]) \/ Big(r[1]) THEN <<NC,r[2]>> ELSE Run(cx,pc+1,Append(SubSeq(k,1,Len(k)-m),Force(r[1])),s,r[2])
Run(cx,pc,k,s,st) ==
  LET i == cx.code[pc] op == i[1] n == Len(k)
      Go(r,m) == Then(cx,pc,k,m,s,r)
      Next1(v) == Run(cx,pc+1,Append(k,v),s,st)
      NextBody(q) == Enter(cx.b,cx.psc,cx.li,cx.j+1,cx.gv,q)
  IN
  CASE op = "PUSH" -> LET o == st.p.objs[i[2]+1] IN Next1(IF o.k = "c" THEN o.v ELSE <<7,i[2]+1>>)
    [] op = "POPS" -> Run(cx,pc+1,SubSeq(k,1,n-1),s,st)
    [] op \in {"FN1C","FN1O"} -> IF k[n-1] = NOW THEN (IF op = "FN1C" THEN <<NC,st>> ELSE Go(<<NOW,st>>,2)) ELSE Go(ApplyV(k[n],NOW,k[n-1],st),2)
    [] op = "FN2C" -> IF k[n] = NOW \/ k[n-2] = NOW THEN <<NC,st>> ELSE Go(ApplyV(k[n-1],k[n],k[n-2],st),3)
    [] op = "FN2O" -> IF k[n-2] = NOW THEN Go(<<NOW,st>>,3) ELSE Go(ApplyV(k[n-1],k[n],k[n-2],st),3)
    [] op = "LSTO" -> Go(<<List(SubSeq(k,n-i[2]+1,n)),st>>,i[2])
    [] op = "ARMO" -> Go(<<Merge(List(SubSeq(k,n-i[2]+1,n))),st>>,i[2])
    [] op = "LSTM" -> Run(cx,pc+1,Append(SubSeq(k,1,n-i[2]),<<21,SubSeq(k,n-i[2]+1,n)>>),s,st)
    [] op = "ARMM" -> Run(cx,pc+1,Append(SubSeq(k,1,n-i[2]),<<25,SubSeq(k,n-i[2]+1,n)>>),s,st)
    [] op = "NOTM" -> Next1(<<22>>)
    [] op = "VFYM" -> Run(cx,pc+1,Append(SubSeq(k,1,n-1),<<24,k[n]>>),s,st)
    [] op = "ALIM" -> Run(cx,pc+1,Append(SubSeq(k,1,n-1),<<23,k[n],i[2]>>),s,st)
    [] op = "DFND" -> LET b == st.p.blocks[i[2]+1] IN
         IF b.ty = 0 THEN (IF b.imm THEN Go(CallB(i[2],s,1,<<>>,st),0) ELSE Go(New([k |-> "clo", b |-> i[2], s |-> s],st),0))
         ELSE Go(New([k |-> "md", ty |-> b.ty, b |-> i[2], s |-> s],st),0)
    [] op = "MD1C" -> Go(Derive1(k[n-1],k[n],st),2)
    [] op = "MD2C" -> Go(Derive2(k[n-1],k[n],k[n-2],st),3)
    [] op = "TR2D" -> Go(New([k |-> "t", t |-> [k |-> "t2", g |-> Opnd(k[n],st), h |-> Opnd(k[n-1],st)]],st),2)
    [] op \in {"TR3D","TR3O"} ->
         IF op = "TR3O" /\ k[n] = NOW THEN Go(New([k |-> "t", t |-> [k |-> "t2", g |-> Opnd(k[n-1],st), h |-> Opnd(k[n-2],st)]],st),3)
         ELSE Go(New([k |-> "t", t |-> [k |-> "t3", f |-> Opnd(k[n],st), g |-> Opnd(k[n-1],st), h |-> Opnd(k[n-2],st)]],st),3)
    [] op = "VARM" -> Next1(<<20,i[2],i[3]>>)
    [] op = "VARO" -> LET v == st.sc[Anc(st,s,i[2])].vars[i[3]+1] IN IF v = UNDEF \/ v = OPT THEN <<ERR,st>> ELSE Next1(v)
    [] op = "VARU" -> LET f == Anc(st,s,i[2]) v == st.sc[f].vars[i[3]+1] IN
                      IF v = UNDEF \/ v = OPT THEN <<NC,st>> ELSE Run(cx,pc+1,Append(k,v),s,SetVar(st,f,i[3],OPT))
    [] op = "CHKV" -> IF k[n] = NOW THEN <<ERR,st>> ELSE Run(cx,pc+1,k,s,st)
    [] op \in {"SETN","SETU"} -> IF k[n-1] = NOW THEN <<NC,st>> ELSE LET q == SetRef(st,s,k[n],k[n-1],op = "SETU") IN IF IsBad(q[1]) THEN q ELSE Go(<<k[n-1],q[2]>>,2)
    [] op = "SETM" -> LET g == Get(st,s,k[n]) IN
         IF IsBad(g[1]) THEN g
         ELSE LET r == RChk(ApplyV(k[n-1],g[1],k[n-2],g[2])) IN
           IF IsBad(r[1]) THEN r
           ELSE LET q == SetRef(r[2],s,k[n],r[1],TRUE) IN IF IsBad(q[1]) THEN q ELSE Go(<<r[1],q[2]>>,3)
    [] op = "SETC" -> LET g == Get(st,s,k[n]) IN
         IF IsBad(g[1]) THEN g
         ELSE LET r == RChk(ApplyV(k[n-1],NOW,g[1],g[2])) IN
           IF IsBad(r[1]) THEN r
           ELSE LET q == SetRef(r[2],s,k[n],r[1],TRUE) IN IF IsBad(q[1]) THEN q ELSE Go(<<r[1],q[2]>>,2)
    [] op = "SETH" -> LET q == SetH(st,s,k[n],k[n-1]) IN
         IF q[1] THEN Run(cx,pc+1,SubSeq(k,1,n-2),s,q[2]) ELSE NextBody(q[2])
    [] op = "PRED" -> IF k[n] = ONE THEN Run(cx,pc+1,SubSeq(k,1,n-1),s,st) ELSE IF k[n] = ZERO THEN NextBody(st) ELSE <<ERR,st>>
    [] op = "FLDO" -> IF ~IsNs(k[n],st) THEN <<ERR,st>> ELSE Go(<<Fld(st,k[n],i[2]),st>>,1)
    [] op = "RETN" -> <<k[n],st>>
    [] op = "RETD" -> New([k |-> "ns", s |-> s],st)
Program(p,r) ==
  CallB(0,0,1,<<>>,[r |-> r, log |-> <<>>, pre |-> FALSE, err |-> <<>>, d |-> 0, p |-> p, sc |-> <<>>,
                    h |-> [i \in 1..Len(p.objs) |-> p.objs[i]]])

RECURSIVE AgreeV(_,_)
\* function values agree with any of the kind
AgreeV(e,o) == IF e = NC THEN TRUE
               ELSE IF e = SOMESTR THEN o[1] = 2 /\ Len(o[2]) = 1 /\ \A i \in 1..Len(o[3]) : IsChr(o[3][i])
               ELSE IF e[1] = 7 THEN o[1] = 7
               ELSE IF e[1] = 9 THEN o[1] = 9
               ELSE IF e = o THEN TRUE
               ELSE e[1] = 2 /\ o[1] = 2 /\ e[2] = o[2] /\ Len(e[3]) = Len(o[3]) /\ \A i \in 1..Len(e[3]) : AgreeV(e[3][i],o[3][i])
AgreeCall(a,b) == a[1] = b[1] /\ (a[2] = b[2] \/ AgreeV(a[2],b[2])) /\ AgreeV(a[3],b[3])
\* observed: <<outcome, log>>
AgreeL(e,o) ==
  IF e[1] = NC THEN TRUE
  ELSE /\ AgreeV(e[1],o[1])
       /\ IF e[2].pre THEN Len(o[2]) <= Len(e[2].log) ELSE Len(o[2]) = Len(e[2].log)
       /\ \A i \in 1..Len(o[2]) : AgreeCall(e[2].log[i],o[2][i])
=============================================================================
