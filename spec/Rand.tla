-------------------------------- MODULE Rand --------------------------------
(* Random generators.  A generator is a seed and the sequence of calls made  *)
(* on it so far; a call may give any outcome its definition permits, and     *)
(* generators with equal seeds and equal calls give equal outcomes.          *)
(* operations: <<"mk",seed>>   <<"call",g,fn,w,x>>   <<"rep",g,fn,w,x,k,m>>  *)
(* (the call k times; m = 0: the distinct outcomes; m = 1: the distinct      *)
(* elements at each position)   <<"other",n>>                                *)
(* g = 0 is the generator of the system.  Long outcomes are summarised:      *)
(* <<10,shape,distinct,min,max,integers,ascending,varying bits lo,hi,crc>>.  *)
EXTENDS Num, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
RERR == <<9>>
RNC == <<8>>
NOWR == <<6>>
Two(n) == Enc(0,<<1>>,n,FALSE)
RIsNum(v) == v[1] \in {0,3}
RNat(v) == RIsNum(v) /\ IsInteger(v) /\ ~Signed(v)
RInt(v) == RIsNum(v) /\ IsInteger(v)
\* the kind of outcome: <<9>>, <<8>> or <<1,shape,kind,bound>>; kind 1: any in range, 2: distinct, 3: ascending
Shp(w) == IF RNat(w) THEN <<w>> ELSE w[3]
RangeK(w,x) ==
  IF ~RInt(x) \/ Signed(x) THEN RERR
  ELSE IF w = NOWR THEN IF ~NumLt(x,Two(53)) THEN RNC ELSE <<1,<<>>,0,x>>
  ELSE IF ~(RNat(w) \/ (w[1] = 2 /\ Len(w[2]) <= 1 /\ \A i \in 1..Len(w[3]) : RNat(w[3][i]))) THEN RERR
  ELSE IF ~NumLt(x,Two(53)) THEN RERR
  ELSE <<1,Shp(w),1,x>>
SmallN(v) == RNat(v) /\ NumLt(v,Two(31))
DealK(w,x) ==
  IF ~SmallN(x) THEN RERR
  ELSE IF w = NOWR THEN <<1,<<x>>,2,x>>
  ELSE IF ~SmallN(w) \/ NumLt(x,w) THEN RERR ELSE <<1,<<w>>,2,x>>
SubK(w,x) ==
  IF w = NOWR THEN RERR
  ELSE IF ~SmallN(x) \/ ~SmallN(w) \/ NumLt(x,w) THEN RERR ELSE <<1,<<w>>,3,x>>
KindOf(f,w,x) == CASE f = "r" -> RangeK(w,x) [] f = "d" -> DealK(w,x) [] f = "s" -> SubK(w,x)
InR(v,b) == RIsNum(v) /\ (IF b = ZERO THEN ~Signed(v) /\ NumLt(v,ONE) ELSE IsInteger(v) /\ ~Signed(v) /\ NumLt(v,b))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1]*Prod(Tail(s))
ShInts(s) == <<>> \o [i \in 1..Len(s) |-> s[i][2]]
Asc(q) == \A i \in 1..(Len(q)-1) : NumLt(q[i],q[i+1])
\* bits below the highest of b take both values in 60 or more draws; values fall on both sides of the middle
BitsLo(b) == IF b = ZERO THEN 134217727 ELSE LET d == BBits(Dec(b).m)+Dec(b).e-1 IN IF d >= 27 THEN 134217727 ELSE 2^d-1
BitsHi(b) == IF b = ZERO THEN 33554431 ELSE LET d == BBits(Dec(b).m)+Dec(b).e-1 IN IF d < 27 THEN 0 ELSE 2^(d-27)-1
RECURSIVE Covers(_,_)
Covers(a,m) == m = 0 \/ ((m % 2 = 1 => a % 2 = 1) /\ Covers(a \div 2,m \div 2))
Half(b) == IF b = ZERO THEN Div(ONE,<<0,2>>) ELSE Div(b,<<0,2>>)
Spread(k,o) ==
  LET n == Prod(o[2]) b == k[4] IN
  IF b = ONE \/ n < 300 THEN TRUE
  ELSE CASE k[3] = 1 -> /\ Covers(o[8],BitsLo(b)) /\ Covers(o[9],BitsHi(b)) /\ NumLt(o[4],Half(b)) /\ NumLe(Half(b),Add(o[5],IF b = ZERO THEN ZERO ELSE ONE))
                         /\ ((b = ZERO \/ ~NumLt(b,Two(50))) => n-o[3] < 5)
         [] OTHER -> NumLt(o[4],Half(b)) /\ NumLe(Half(b),Add(o[5],ONE))
Permitted(k,o) ==
  IF k = RERR THEN o = RERR
  ELSE IF k = RNC THEN o[1] # 5
  ELSE IF o[1] = 10 THEN
         /\ o[2] = ShInts(k[2]) /\ InR(o[4],k[4]) /\ InR(o[5],k[4]) /\ (k[4] = ZERO \/ o[6] = 1)
         /\ (k[3] >= 2 => o[3] = Prod(o[2])) /\ (k[3] = 3 => o[7] = 1)
         /\ Spread(k,o)
  ELSE IF k[3] = 0 THEN InR(o,k[4])
  ELSE /\ o[1] = 2 /\ o[2] = ShInts(k[2]) /\ Len(o[3]) = Prod(o[2])
       /\ \A i \in 1..Len(o[3]) : InR(o[3][i],k[4])
       /\ (k[3] = 2 => Cardinality({o[3][i] : i \in 1..Len(o[3])}) = Len(o[3]))
       /\ (k[3] = 3 => Asc(o[3]))
\* the set of all outcomes of a small call, as values
Nums(n) == {<<0,i>> : i \in 0..(n-1)}
RECURSIVE Lists(_,_)
Lists(n,m) == IF n = 0 THEN {<<>>} ELSE {<<e>> \o q : e \in Nums(m), q \in Lists(n-1,m)}
RECURSIVE Injs(_,_)
Injs(n,m) == IF n = 0 THEN {<<>>} ELSE {<<e>> \o q : e \in Nums(m), q \in Injs(n-1,m)} \cap {q \in Seq(Nums(m)) : \A i,j \in 1..Len(q) : i # j => q[i] # q[j]}
Every(k) ==
  LET b == k[4][2] n == Prod(ShInts(k[2])) IN
  CASE k[3] = 0 -> Nums(b)
    [] k[3] = 1 -> {<<2,ShInts(k[2]),q>> : q \in Lists(n,b)}
    [] k[3] = 2 -> {<<2,<<n>>,q>> : q \in Injs(n,b)}
    [] k[3] = 3 -> {<<2,<<n>>,<<>> \o [i \in 1..n |-> <<0,SetToSortSeq(s,<)[i]>>]>> : s \in kSubset(n,0..(b-1))}
RepOk(k,m,o) ==
  IF m = 0 THEN o[1] = 11 /\ ToSet(o[2]) = Every(k)
  ELSE o[1] = 12 /\ Len(o[2]) = Prod(ShInts(k[2])) /\ \A i \in 1..Len(o[2]) : ToSet(o[2][i]) = Nums(k[4][2])
IsCall(op) == op[1] \in {"call","rep"}
OpOk(op,o) ==
  CASE op[1] = "mk" -> o = IF RIsNum(op[2]) THEN <<7,1>> ELSE RERR
    [] op[1] = "other" -> o = <<7,1>>
    [] op[1] = "call" -> Permitted(KindOf(op[3],op[4],op[5]),o)
    [] op[1] = "rep" -> RepOk(KindOf(op[3],op[4],op[5]),op[7],o)
\* positions in h of the creations of generators
Makes(h) == SelectSeq([i \in 1..Len(h) |-> i],LAMBDA i : h[i][1] = "mk")
SeedOf(h,i) == h[Makes(h)[h[i][2]]][2]
\* the calls on its generator up to and including operation i
Past(h,i) == SelectSeq(SubSeq(h,1,i),LAMBDA op : IsCall(op) /\ op[2] = h[i][2])
PastKey(h,i) == LET q == Past(h,i) IN <<SeedOf(h,i),<<>> \o [j \in 1..Len(q) |-> SubSeq(q[j],3,Len(q[j]))]>>
\* calls with so many outcomes that two equal ones are no accident
WideCall(op) == op[1] = "call" /\ KindOf(op[3],op[4],op[5])[1] = 1 /\
                (\/ op[3] = "r" /\ op[4] = NOWR /\ ~NumLt(op[5],Two(50)) /\ NumLt(op[5],Two(53))
                 \/ op[3] = "d" /\ op[4] = NOWR /\ NumLe(<<0,30>>,op[5]))
RHistOk(h,runs) ==
  LET C == {i \in 1..Len(h) : IsCall(h[i]) /\ h[i][2] > 0 /\ h[Makes(h)[h[i][2]]][1] = "mk"}
      key == TLCEval([i \in C |-> PastKey(h,i)])
      W == {i \in C : WideCall(h[i])}
  IN /\ \A r \in 1..Len(runs) : Len(runs[r]) = Len(h) /\ \A i \in 1..Len(h) : OpOk(h[i],runs[r][i]) \/ PrintT(<<"AT",i,"not permitted">>) = FALSE
     /\ \A i,j \in C : (i <= j /\ key[i] = key[j]) => \A r,s \in 1..Len(runs) : runs[r][i] = runs[s][j] \/ PrintT(<<"AT",j,"differs from">>) = FALSE
     /\ \A i,j \in W : (i < j /\ h[i][5] = h[j][5] /\ (h[i][2] = h[j][2] \/ SeedOf(h,i) # SeedOf(h,j))) => \A r \in 1..Len(runs) : runs[r][i] # runs[r][j] \/ PrintT(<<"AT",j,"repeats">>) = FALSE
=============================================================================
