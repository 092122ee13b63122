--------------------------------- MODULE Ffi ---------------------------------
(* Native functions and pointers: what a type text means, which bytes a value *)
(* becomes under a type, which value bytes are read as, what a native call    *)
(* sees and gives back, and the state machine of pointer objects over memory. *)
(* Memory is a sequence of cells: a byte, -1 for a byte nothing is claimed    *)
(* of, or 1000+8*o+k for byte k of the address of memory position o.          *)
EXTENDS Text
---------------------------------------------------------------------------
(* Types: <<"s",letter,width>>, <<"v">> nothing, <<"*",T,mutated>>,           *)
(* <<"t",n,T>> array argument, <<"[",n,T>>, <<"{",Ts>>, <<":",T,kind,width>>  *)
ChAt(s,i) == IF i <= Len(s) THEN s[i] ELSE 0
Bad == [ok |-> FALSE]
ReadU(s,i) == LET j == SpanDig(s,i) IN IF j = i \/ j-i > 9 THEN <<-1,i>> ELSE <<SmallVal(SubSeq(s,i,j-1)),j>>
VPTR == <<"*",<<"v">>,FALSE>>
Rep(s,i,t,pr,re,mut) ==
  IF ~pr \/ ChAt(s,i) # 58 THEN [ok |-> TRUE, t |-> t, i |-> i, re |-> re, mut |-> mut]
  ELSE LET k == ChAt(s,i+1) n == ReadU(s,i+2) IN
    IF ~(CASE k \in {105,99} -> n[1] \in {8,16,32} [] k = 117 -> n[1] = 1 [] k = 102 -> n[1] = 64 [] OTHER -> FALSE) THEN Bad
    ELSE IF t[1] = "s" /\ (IF t[1] = "s" THEN n[1] > t[3] ELSE FALSE) THEN Bad
    ELSE [ok |-> TRUE, t |-> <<":",t,k,n[1]>>, i |-> n[2], re |-> re, mut |-> mut]
RECURSIVE PT(_,_,_,_), PFields(_,_,_)
\* the type at position i; inPtr: what a pointer points to; top: the whole of an argument
PT(s,i,inPtr,top) ==
  LET c == ChAt(s,i) IN
  IF c = 91 THEN
    LET n == ReadU(s,i+1) IN
    IF n[1] <= 0 THEN Bad ELSE IF ChAt(s,n[2]) # 93 THEN Bad
    ELSE LET e == PT(s,n[2]+1,top,FALSE) IN
      IF ~e.ok THEN Bad ELSE IF top THEN Rep(s,e.i,<<"t",n[1],e.t>>,e.re,FALSE,FALSE)
      ELSE [ok |-> TRUE, t |-> <<"[",n[1],e.t>>, i |-> e.i, re |-> FALSE, mut |-> FALSE]
  ELSE IF c \in {105,117,102} THEN
    LET n == ReadU(s,i+1) IN
    IF n[1] \notin (IF c = 102 THEN {32,64} ELSE {8,16,32,64}) THEN Bad ELSE Rep(s,n[2],<<"s",c,n[1]>>,~inPtr,inPtr,FALSE)
  ELSE IF c = 97 THEN [ok |-> TRUE, t |-> <<"s",97,64>>, i |-> i+1, re |-> FALSE, mut |-> FALSE]
  ELSE IF c = 42 /\ ChAt(s,i+1) \in {0,58,125,44} THEN Rep(s,i+1,VPTR,~inPtr,inPtr,FALSE)
  ELSE IF c = 42 \/ c = 38 THEN
    IF c = 38 /\ ~top THEN Bad
    ELSE LET e == PT(s,i+1,TRUE,FALSE) IN IF ~e.ok THEN Bad ELSE Rep(s,e.i,<<"*",e.t,c = 38>>,e.re,FALSE,c = 38)
  ELSE IF c = 123 THEN PFields(s,i+1,<<>>)
  ELSE Bad
PFields(s,i,ts) ==
  LET e == PT(s,i,FALSE,FALSE) IN
  IF ~e.ok THEN Bad
  ELSE IF ChAt(s,e.i) = 125 THEN [ok |-> TRUE, t |-> <<"{",Append(ts,e.t)>>, i |-> e.i+1, re |-> FALSE, mut |-> FALSE]
  ELSE IF ChAt(s,e.i) = 44 THEN PFields(s,e.i+1,Append(ts,e.t)) ELSE Bad
Parse(s,i,top) == LET e == PT(s,i,FALSE,top) IN IF ~e.ok THEN Bad ELSE IF e.i # Len(s)+1 THEN Bad ELSE e
\* side, '>' and type of an argument
WW == 120168   XX == 120169
RECURSIVE Deco(_,_,_,_)
Deco(s,i,side,whole) ==
  LET c == ChAt(s,i) IN
  IF c \in {WW,XX} THEN (IF side # 0 THEN Bad ELSE Deco(s,i+1,IF c = WW THEN 2 ELSE 1,whole))
  ELSE IF c = 62 THEN (IF whole THEN Bad ELSE Deco(s,i+1,side,TRUE))
  ELSE LET e == Parse(s,i,TRUE) IN IF ~e.ok THEN Bad ELSE [ok |-> TRUE, t |-> e.t, mut |-> e.mut, side |-> side, whole |-> whole, single |-> FALSE]
ResTy(s) == IF s = <<>> \/ s = <<38>> THEN [ok |-> TRUE, t |-> <<"v">>, mut |-> FALSE, side |-> 0, whole |-> FALSE, single |-> s # <<>>] ELSE Deco(s,1,0,FALSE)
---------------------------------------------------------------------------
RUp(n,a) == ((n+a-1) \div a)*a
RECURSIVE SzAl(_)
SzAl(t) ==
  CASE t[1] = "s" -> <<t[3] \div 8,t[3] \div 8>> [] t[1] = "v" -> <<0,1>>
    [] t[1] = ":" -> (IF t[2][1] = "s" THEN SzAl(t[2]) ELSE <<8,8>>)
    [] t[1] = "[" -> LET e == SzAl(t[3]) IN <<t[2]*e[1],e[2]>>
    [] t[1] = "{" -> LET f == FoldLeft(LAMBDA a,u : LET e == SzAl(u) IN <<RUp(a[1],e[2])+e[1],MaxI(a[2],e[2])>>,<<0,1>>,t[2]) IN <<RUp(f[1],f[2]),f[2]>>
    [] OTHER -> <<8,8>>
Size(t) == SzAl(t)[1]
Agg(t) == t[1] = "[" \/ t[1] = "{"
Flds(t) == IF t[1] = "[" THEN [i \in 1..t[2] |-> t[3]] ELSE t[2]
Offs(t) == IF t[1] = "[" THEN LET e == Size(t[3]) IN [i \in 1..t[2] |-> (i-1)*e]
           ELSE FoldLeft(LAMBDA a,u : LET e == SzAl(u) o == RUp(a[2],e[2]) IN <<Append(a[1],o),o+e[1]>>,<<<<>>,0>>,t[2])[1]
Strip(t) == IF t[1] = ":" THEN t[2] ELSE t
RECURSIVE TyEq(_,_)
TyEq(a0,b0) ==
  LET a == Strip(a0) b == Strip(b0) IN
  IF a[1] = "v" \/ b[1] = "v" THEN TRUE
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "s" -> a[2] = b[2] /\ a[3] = b[3]
         [] a[1] = "*" -> TyEq(a[2],b[2])
         [] a[1] = "t" -> TyEq(a[3],b[3])
         [] OTHER -> LET f == Flds(a) g == Flds(b) IN Len(f) = Len(g) /\ \A i \in 1..Len(f) : TyEq(f[i],g[i])
---------------------------------------------------------------------------
(* Numbers and bytes                                                         *)
UBytes(v,k) == IF ~IsInteger(v) THEN <<>> ELSE LET d == Dec(v) m == IF d.e >= 0 THEN BShl(d.m,d.e) ELSE BShr(d.m,-d.e)[1] IN
               IF BBits(m) > 8*k \/ (d.s = 1 /\ Trim(m) # <<>>) THEN <<>> ELSE Pad(m,k)
Unk(k) == [i \in 1..k |-> -1]
F32Bytes(v) ==
  IF v = NAN THEN Unk(4) ELSE IF v = ZERO THEN <<0,0,0,0>> ELSE IF v = INF THEN <<0,0,128,127>> ELSE IF v = NINF THEN <<0,0,128,255>>
  ELSE LET d == Dec(v) nb == BBits(d.m) q == IF nb > 24 THEN BShr(d.m,nb-24) ELSE <<BShl(d.m,24-nb),FALSE>>
           e == nb-1+d.e+127 m == Pad(Trim(q[1]),3) IN
    IF q[2] \/ e < 1 \/ e > 254 THEN Unk(4) ELSE <<m[1],m[2],(m[3] % 128)+128*(e % 2),128*d.s+(e \div 2)>>
OfF32(b) == LET e == 2*(b[4] % 128)+(b[3] \div 128) s == b[4] \div 128 m == <<b[1],b[2],b[3] % 128>> IN
  IF e = 255 THEN (IF Trim(m) # <<>> THEN NC ELSE IF s = 1 THEN NINF ELSE INF)
  ELSE IF e = 0 THEN Enc(s,Trim(m),-149,FALSE) ELSE Enc(s,<<b[1],b[2],(b[3] % 128)+128>>,e-150,FALSE)
\* bytes of a scalar, <<>> when the value does not fit
ScBytes(c,n,v) ==
  IF c = 97 THEN Unk(8) ELSE IF ~IsNum(v) THEN <<>>
  ELSE IF c = 102 THEN (IF n = 32 THEN F32Bytes(v) ELSE IF v = NAN THEN Unk(8) ELSE FBytes(v))
  ELSE LET b == IF c = 105 THEN IBytes(v,n \div 8) ELSE UBytes(v,n \div 8) IN
    IF b = <<>> \/ n < 64 THEN b ELSE LET m == IF b[8] >= 128 THEN TwosC(b) ELSE b IN IF BBits(Trim(m)) > 53 THEN <<>> ELSE b
Kind(k) == CASE k = 117 -> "u" [] k = 105 -> "i" [] k = 99 -> "c" [] OTHER -> "f"
\* bytes of elements under a representation; <<>> when there are none or some do not fit
ReBytes(rv,k,w) ==
  IF w = 64 /\ \E i \in 1..Len(rv) : rv[i] = NAN THEN (IF \E i \in 1..Len(rv) : ~IsNum(rv[i]) THEN <<-2>> ELSE Unk(8*Len(rv)))
  ELSE LET b == ToBits(rv,<<w,Kind(k)>>) IN IF b = <<2>> THEN <<-2>> ELSE <<>> \o [i \in 1..Len(b) \div 8 |-> ByteAt(b,8*(i-1))]
Known(b) == \A i \in 1..Len(b) : b[i] \in 0..255
---------------------------------------------------------------------------
(* A value under a type: [ok, b bytes, p what is found behind its pointers]   *)
No == [ok |-> FALSE, b |-> <<>>, p |-> <<>>]
Yes(b,p) == [ok |-> TRUE, b |-> b, p |-> p]
IsH(v) == v[1] = 7 /\ v[2] > 1000
AddrOf(o) == [i \in 1..8 |-> 1000+8*o+i-1]
NumElt(e) == e[1] = "s" /\ (IF e[1] = "s" THEN (e[2] \in {105,117} /\ e[3] < 64) \/ e[2] = 102 ELSE FALSE)
RECURSIVE Conv(_,_,_,_)
Elts(ts,v,src,h) == [i \in 1..Len(ts) |-> Conv(ts[i],v[3][i],src,h)]
Conv(t,v,src,h) ==
  LET Ptr(e) == LET q == h[v[2]-1000] IN IF TyEq(q[1],e) THEN Yes(AddrOf(q[2]),<<<<"m",q[2]>>>>) ELSE No IN
  CASE t[1] = "s" -> (LET b == ScBytes(t[2],t[3],v) IN IF b = <<>> THEN No ELSE Yes(b,IF t[2] = 97 THEN <<<<"a",v>>>> ELSE <<>>))
    [] t[1] = "*" \/ t[1] = "t" ->
       (LET e == IF t[1] = "*" THEN t[2] ELSE t[3] IN
        IF ~IsArr(v) THEN (IF IsH(v) THEN Ptr(e) ELSE No)
        ELSE IF ~src THEN No
        ELSE IF t[1] = "t" /\ (IF t[1] = "t" THEN t[2] # Len(v[3]) ELSE FALSE) THEN No
        ELSE IF NumElt(e) THEN
          (LET bs == <<>> \o [i \in 1..Len(v[3]) |-> ScBytes(e[2],e[3],v[3][i])] IN
           IF \E i \in 1..Len(bs) : bs[i] = <<>> THEN No ELSE Yes(Unk(8),<<<<"c",FoldLeft(LAMBDA a,b : a \o b,<<>>,bs)>>>>))
        ELSE IF ~Agg(e) THEN No
        ELSE LET es == <<>> \o Elts([i \in 1..Len(v[3]) |-> e],v,FALSE,h) IN
          IF \E i \in 1..Len(es) : ~es[i].ok THEN No
          ELSE Yes(Unk(8),<<<<"c",FoldLeft(LAMBDA a,b : a \o b.b,<<>>,es)>>>> \o FoldLeft(LAMBDA a,b : a \o b.p,<<>>,es)))
    [] t[1] = ":" ->
       (LET o == t[2] w == t[4]
            Direct(sz) == IF ~IsArr(v) THEN No ELSE IF Len(v[3])*w # sz*8 THEN No ELSE LET b == ReBytes(v[3],t[3],w) IN IF b = <<-2>> THEN No ELSE Yes(b,IF o[1] = "*" THEN <<<<"n">>>> ELSE <<>>) IN
        IF o[1] = "s" THEN Direct(o[3] \div 8)
        ELSE LET e == o[2] IN
          IF e[1] = "v" THEN (IF IsH(v) THEN Ptr(e) ELSE Direct(8))
          ELSE IF IsH(v) THEN Ptr(e)
          ELSE IF ~src \/ ~IsArr(v) THEN No
          ELSE LET mul == (8*Size(e)) \div w IN
            IF mul > 0 /\ (IF mul > 0 THEN (Len(v[3]) % mul) # 0 ELSE FALSE) THEN No
            ELSE LET b == ReBytes(v[3],t[3],w) IN IF b = <<-2>> THEN No ELSE Yes(Unk(8),<<<<"c",b>>>>))
    [] Agg(t) ->
       (LET ts == Flds(t) IN
        IF ~IsArr(v) THEN No ELSE IF Len(v[3]) # Len(ts) THEN No
        ELSE LET es == <<>> \o Elts(ts,v,src,h) os == Offs(t) IN
          IF \E i \in 1..Len(es) : ~es[i].ok THEN No
          ELSE LET b == FoldLeft(LAMBDA a,i : a \o Unk(os[i]-Len(a)) \o es[i].b,<<>>,[i \in 1..Len(ts) |-> i]) IN
            Yes(b \o Unk(Size(t)-Len(b)),FoldLeft(LAMBDA a,e : a \o e.p,<<>>,es)))
    [] OTHER -> No
---------------------------------------------------------------------------
(* Bytes read as a type.  A pointer read is <<7,2000+o>>.                     *)
RECURSIVE Read(_,_), Risk(_)
\* can reading it fail, depending on the bytes
Risk(t) == CASE t[1] = "s" -> t[2] \in {105,117} /\ t[3] = 64 [] t[1] = "[" -> Risk(t[3]) [] t[1] = "{" -> \E i \in 1..Len(t[2]) : Risk(t[2][i]) [] OTHER -> FALSE
ReadSc(c,n,b) ==
  IF ~Known(b) THEN NC ELSE IF c = 102 THEN (IF n = 32 THEN OfF32(b) ELSE OfBytes(b,<<64,"f">>))
  ELSE IF c = 105 THEN (LET m == IF b[n \div 8] >= 128 THEN TwosC(b) ELSE b IN IF BBits(Trim(m)) > 53 THEN ERR ELSE OfBytes(b,<<n,"i">>))
  ELSE IF BBits(Trim(b)) > 53 THEN ERR ELSE Enc(0,Trim(b),0,FALSE)
ReadPtr(b) == IF b[1] < 1000 THEN NC ELSE LET o == (b[1]-1000) \div 8 IN IF b = <<>> \o AddrOf(o) THEN <<7,2000+o>> ELSE NC
ReadRe(k,w,b) == IF ~Known(b) THEN NC ELSE List(FromBits(FoldLeft(LAMBDA a,c : a \o BB[c+1],<<>>,b),<<w,Kind(k)>>))
Read(t,b) ==
  CASE t[1] = "v" -> Ch(0)
    [] t[1] = "s" -> (IF t[2] = 97 THEN b ELSE ReadSc(t[2],t[3],b))
    [] t[1] = ":" -> (IF t[2][1] = "s" THEN ReadRe(t[3],t[4],b) ELSE IF t[2] = VPTR THEN ReadRe(t[3],t[4],b) ELSE ERR)
    [] t[1] = "*" -> ReadPtr(b)
    [] OTHER -> LET ts == Flds(t) os == Offs(t) rs == <<>> \o [i \in 1..Len(ts) |-> Read(ts[i],SubSeq(b,os[i]+1,os[i]+Size(ts[i])))] IN
         IF \E i \in 1..Len(rs) : rs[i] = ERR THEN ERR ELSE IF \E i \in 1..Len(rs) : rs[i] = NC /\ Risk(ts[i]) THEN NC ELSE List(rs)
---------------------------------------------------------------------------
(* Function definitions                                                       *)
BadRes(t) == CASE t[1] = ":" -> t[2][1] # "s" /\ t[2] # VPTR [] t[1] = "t" -> TRUE [] t[1] = "[" -> TRUE [] OTHER -> FALSE
Def(res,args) == \* [ok, r, a]
  LET r == ResTy(res) a == <<>> \o [i \in 1..Len(args) |-> IF args[i] = <<>> THEN Bad ELSE Deco(args[i],1,0,FALSE)] IN
  IF ~r.ok THEN Bad ELSE IF r.side # 0 \/ r.mut \/ BadRes(r.t) THEN Bad
  ELSE IF \E i \in 1..Len(a) : ~a[i].ok THEN Bad
  ELSE IF \E i \in 1..Len(a) : a[i].t[1] = ":" /\ (IF a[i].t[1] = ":" THEN a[i].t[2][1] = "t" ELSE FALSE) THEN Bad
  ELSE LET on(k) == {i \in 1..Len(a) : (a[i].side = 2) = (k = 2)} IN
    IF \E k \in 1..2 : Cardinality(on(k)) > 1 /\ \E i \in on(k) : a[i].whole THEN Bad
    ELSE IF r.single /\ Cardinality({i \in 1..Len(a) : a[i].mut}) # 1 THEN Bad
    ELSE [ok |-> TRUE, r |-> r, a |-> a, n |-> [k \in 1..2 |-> LET s == on(k) IN IF \E i \in s : a[i].whole THEN -1 ELSE Cardinality(s)]]
IsList(v,n) == IsArr(v) /\ (IF IsArr(v) THEN Len(v[2]) = 1 /\ Len(v[3]) = n ELSE FALSE)
\* what mutated argument a gives back, when v was passed and the bytes behind it are now b
Mutated(a,v,b,h) ==
  IF IsH(v) THEN <<7,2000+h[v[2]-1000][2]>>
  ELSE IF a.t[1] = ":" THEN LET r == ReadRe(a.t[3],a.t[4],b) IN r
  ELSE LET e == a.t[2] z == Size(e) rs == <<>> \o [i \in 1..Len(v[3]) |-> Read(e,SubSeq(b,(i-1)*z+1,i*z))] IN
    IF \E i \in 1..Len(rs) : rs[i] = ERR THEN ERR ELSE List(rs)
\* the outcome of calling f with w and x, the native function answering with result bytes rb and bytes mb behind the mutated pointers:
\* <<times called, what it saw, result>>
FfiCall(f,w,x,h,rb,mb) ==
  LET okside(v,k) == CASE f.n[k] = -1 -> v # <<6>> [] f.n[k] = 0 -> (v = <<6>> /\ k = 2) \/ IsList(v,0) [] OTHER -> IsList(v,f.n[k]) IN
  IF ~okside(x,1) \/ ~okside(w,2) THEN <<0,<<>>,ERR>>
  ELSE
  LET a == f.a
      side(i) == IF a[i].side = 2 THEN 2 ELSE 1
      arg(i) == LET v == IF side(i) = 2 THEN w ELSE x IN IF a[i].whole THEN v ELSE v[3][Cardinality({j \in 1..i : side(j) = side(i)})]
      vs == <<>> \o [i \in 1..Len(a) |-> arg(i)]
      cs == <<>> \o [i \in 1..Len(a) |-> Conv(a[i].t,vs[i],TRUE,h)]
  IN IF \E i \in 1..Len(a) : ~cs[i].ok THEN <<0,<<>>,ERR>>
  ELSE
  LET ms == SelectSeq([i \in 1..Len(a) |-> i],LAMBDA i : a[i].mut)
      mr == <<>> \o [k \in 1..Len(ms) |-> Mutated(a[ms[k]],vs[ms[k]],mb[k],h)]
      r == Read(f.r.t,rb)
      all == IF f.r.t[1] = "v" THEN mr ELSE <<r>> \o mr
      res == IF r = ERR \/ (\E k \in 1..Len(mr) : mr[k] = ERR) THEN ERR
             ELSE IF f.r.single THEN mr[1] ELSE IF ms = <<>> THEN r ELSE List(all)
  IN <<1,[i \in 1..Len(a) |-> <<cs[i].b,cs[i].p>>],res>>
---------------------------------------------------------------------------
(* Pointer objects: <<type,position,stride>> over memory                      *)
PVal(q) == <<7,2000+q[2]>>
MkPtr(t,o) == <<t,o,Size(t)>>
InMem(mem,o,n) == o >= 0 /\ o+n <= Len(mem)
OffNum(v) == IF ~IsNum(v) THEN FALSE ELSE v[1] = 0
\* outcome of op on pointer q: [o, q (new pointer or <<>>), mem]
PtrOp(op,q,h,mem) ==
  LET k == op[1] R(o) == [o |-> o, q |-> <<>>, mem |-> mem] P(p) == [o |-> PVal(p), q |-> p, mem |-> mem] IN
  CASE k = "read" ->
       (IF q[1] = <<"v">> \/ ~OffNum(op[3]) THEN R(ERR) ELSE
        LET o == q[2]+op[3][2]*q[3] z == Size(q[1]) IN IF ~InMem(mem,o,z) THEN R(NC) ELSE
        LET r == Read(q[1],SubSeq(mem,o+1,o+z)) IN IF q[1][1] = "*" /\ r[1] = 7 THEN P(MkPtr(q[1][2],r[2]-2000)) ELSE R(r))
    [] k = "write" ->
       (IF q[1] = <<"v">> \/ ~(OffNum(op[3]) \/ op[3] = <<6>>) THEN R(ERR) ELSE
        LET o == q[2]+(IF op[3] = <<6>> THEN 0 ELSE op[3][2]*q[3]) z == Size(q[1]) c == Conv(q[1],op[4],FALSE,h)
            Put(b) == IF InMem(mem,o,z) THEN [i \in 1..Len(mem) |-> IF i > o /\ i <= o+z THEN b[i-o] ELSE mem[i]] ELSE mem IN
        IF c.ok THEN [o |-> ONE, q |-> <<>>, mem |-> Put(c.b)] ELSE [o |-> ERR, q |-> <<>>, mem |-> IF Agg(q[1]) THEN Put(Unk(z)) ELSE mem])
    [] k = "cast" -> (IF op[3] = <<>> THEN P(<<<<"v">>,q[2],0>>) ELSE LET e == Parse(op[3],1,FALSE) IN IF ~e.ok THEN R(ERR) ELSE P(MkPtr(e.t,q[2])))
    [] k = "field" ->
       (IF ~Agg(q[1]) \/ ~OffNum(op[3]) THEN R(ERR) ELSE LET n == op[3][2] f == Flds(q[1]) IN
        IF n < 0 \/ n >= Len(f) THEN R(ERR) ELSE P(<<f[n+1],q[2]+Offs(q[1])[n+1],q[3]>>))
    [] k = "add" \/ k = "sub" ->
       (IF k = "sub" /\ IsH(op[3]) THEN
          LET p == h[op[3][2]-1000] IN
          IF q[1] = <<"v">> \/ p[1] = <<"v">> THEN R(ERR) ELSE IF q[3] # p[3] THEN R(ERR) ELSE IF ~TyEq(q[1],p[1]) THEN R(ERR)
          ELSE LET d == q[2]-p[2] IN IF (Abs(d) % q[3]) # 0 THEN R(ERR) ELSE R(N(IF d < 0 THEN -((-d) \div q[3]) ELSE d \div q[3]))
        ELSE IF q[1] = <<"v">> \/ ~OffNum(op[3]) THEN R(ERR) ELSE P(<<q[1],q[2]+(IF k = "add" THEN op[3][2] ELSE -op[3][2])*q[3],q[3]>>))
---------------------------------------------------------------------------
(* The whole state machine: pointers h, functions f, memory                   *)
FfiInit == [h |-> <<>>, f |-> <<>>, mem |-> <<>>]
FfiStep(st,op) == \* <<state, expected outcome>>
  CASE op[1] = "init" -> <<[st EXCEPT !.mem = op[2]],ONE>>
    [] op[1] = "new" -> \* a native function giving a pointer
       (LET d == Def(op[2],<<>>) IN IF ~d.ok THEN <<st,ERR>> ELSE IF d.r.t[1] # "*" THEN <<st,NC>>
        ELSE LET q == MkPtr(d.r.t[2],op[3]) IN <<[st EXCEPT !.h = Append(@,q)],PVal(q)>>)
    [] op[1] = "def" -> LET d == IF op[4] < 0 THEN Bad ELSE Def(op[2],op[3]) IN <<[st EXCEPT !.f = Append(@,d)],IF d.ok THEN ONE ELSE ERR>>
    [] op[1] = "call" -> LET r == FfiCall(st.f[op[2]],op[3],op[4],st.h,op[5],op[6]) IN <<st,r>>
    [] op[1] = "mem" -> <<st,st.mem>>
    [] OTHER -> LET r == PtrOp(op,st.h[op[2]],st.h,st.mem) IN <<[st EXCEPT !.mem = r.mem, !.h = IF r.q = <<>> THEN @ ELSE Append(@,r.q)],r.o>>
=============================================================================
