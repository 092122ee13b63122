-------------------------------- MODULE BQN --------------------------------
(* Reference semantics of BQN values, primitives, modifiers and combinators, *)
(* as pure operators on canonical values.                                    *)
(*                                                                           *)
(* Values (all tuples of integers / tuples, so any two can be compared):     *)
(*   <<0,n>>, <<3,w3,w2,w1,w0>>  number (see Num)                            *)
(*   <<1,cp>>                    character                                   *)
(*   <<2,shape,ravel>>           array                                       *)
(*   <<7,id>>                    other atom (function, modifier, namespace)  *)
(* Outcomes that are not values:                                             *)
(*   <<9>>   the application is an error                                     *)
(*   <<8>>   the specification makes no claim                                *)
(* Matching (BQN's dyadic Match) is equality of canonical values: element    *)
(* type, fill and every other trait of the representation does not exist     *)
(* here, which is what makes the specification decide representation         *)
(* independence.                                                             *)
EXTENDS Num, FiniteSets, SequencesExt

ERR == <<9>>
NC  == <<8>>
NOW == <<6>>                       \* absent left argument

IsArr(v) == v[1] = 2
IsNum(v) == v[1] = 0 \/ v[1] = 3
IsChr(v) == v[1] = 1
IsBad(v) == v[1] >= 8              \* ERR or NC
N(n) == <<0, n>>
Ch(c) == <<1, c>>
Sh(v) == IF v[1] = 2 THEN v[2] ELSE <<>>
Rv(v) == IF v[1] = 2 THEN v[3] ELSE <<v>>
Rk(v) == IF v[1] = 2 THEN Len(v[2]) ELSE 0
\* (<<>> \o s makes TLC evaluate a function s once, to a tuple)
Arr(sh, rv) == <<2, <<>> \o sh, <<>> \o rv>>
List(rv) == LET r == <<>> \o rv IN <<2, <<Len(r)>>, r>>
Unit(v) == <<2, <<>>, <<v>>>>

RECURSIVE Prod0(_,_)
Prod0(s,i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod0(s,i+1)
Prod(s) == IF Len(s) = 1 THEN s[1] ELSE Prod0(s,1)
\* no claim is made about results with more elements than this
BIG == 30000
RECURSIVE ProdB(_,_,_)     \* product of naturals, or BIG+1 when it is more
ProdB(s,i,a) == IF i > Len(s) THEN a ELSE IF s[i] = 0 THEN 0 ELSE IF a > BIG \div s[i] THEN (IF \E j \in i..Len(s) : s[j] = 0 THEN 0 ELSE BIG+1) ELSE ProdB(s,i+1,a*s[i])
ProdB0(s) == ProdB(s,1,1)
TooBig(s) == ProdB(s,1,1) > BIG
RECURSIVE SumTo(_,_)
SumTo(s,i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s,i-1)
SumS(s) == SumTo(s,Len(s))
RECURSIVE SumB0(_,_,_)
SumB0(s,i,a) == IF i > Len(s) \/ a > BIG THEN a ELSE SumB0(s,i+1,IF s[i] > BIG THEN BIG+1 ELSE a+s[i])
SumB(s) == SumB0(s,1,0)
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b
Drop1(s) == IF s = <<>> THEN s ELSE Tail(s)
Sub_(s,a,n) == SubSeq(s, a+1, a+n)      \* n elements from 0-based offset a
From(s,k) == SubSeq(s, k+1, Len(s))     \* all but the first k

\* a value an enclosing computation may not look at
RECURSIVE Tainted(_)
Tainted(v) == v = NC \/ (v[1] = 2 /\ \E i \in 1..Len(v[3]) : Tainted(v[3][i]))
\* collapse element errors into an error of the whole
Wrap(sh, rv0) == LET rv == <<>> \o rv0 IN IF \E i \in 1..Len(rv) : rv[i] = ERR THEN ERR ELSE Arr(sh, rv)

\* small integer index or a failure marker
IsInt(v) == v[1] = 0
IntsOnly(v) == \A i \in 1..Len(Rv(v)) : Rv(v)[i][1] = 0
\* numbers that fit no axis: every other number. Fractions are errors, huge ones are out of range - errors as well
AllNum(v) == \A i \in 1..Len(Rv(v)) : IsNum(Rv(v)[i])
AllChr(v) == \A i \in 1..Len(Rv(v)) : IsChr(Rv(v)[i])
Ints(v) == [i \in 1..Len(Rv(v)) |-> Rv(v)[i][2]]

\* fill element where the definition fixes one
FillOf(v) == LET r == Rv(v) IN
  IF r = <<>> THEN NC
  ELSE IF \A i \in 1..Len(r) : IsNum(r[i]) THEN ZERO
  ELSE IF \A i \in 1..Len(r) : IsChr(r[i]) THEN Ch(32)
  ELSE NC

--------------------------------------------------------------------------
(* The total order on data values *)
ICmp(a,b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE Compare(_,_), CmpRun(_,_,_,_,_), TailMatch(_,_,_)
TailMatch(ws,xs,k) ==      \* number of matching trailing axes
  IF k >= MinI(Len(ws),Len(xs)) THEN k
  ELSE IF ws[Len(ws)-k] = xs[Len(xs)-k] THEN TailMatch(ws,xs,k+1) ELSE k
CmpRun(w,x,i,n,rc) == IF i > n THEN rc
                      ELSE IF w[i] = x[i] THEN CmpRun(w,x,i+1,n,rc)
                      ELSE LET c == Compare(w[i],x[i]) IN IF c # 0 THEN c ELSE CmpRun(w,x,i+1,n,rc)
Compare(w,x) ==
  IF w = x THEN 0
  ELSE IF IsArr(w) /\ IsArr(x) THEN
    LET ws == Sh(w) xs == Sh(x) wr == Len(ws) xr == Len(xs)
        k  == TailMatch(ws,xs,0)
        full == k = MinI(wr,xr)
        rm0 == Prod(SubSeq(ws,wr-k+1,wr))
        wm == IF full THEN 0 ELSE ws[wr-k]
        xm == IF full THEN 0 ELSE xs[xr-k]
        rc == IF full THEN ICmp(wr,xr) ELSE ICmp(wm,xm)
        rm == IF full THEN rm0 ELSE rm0*MinI(wm,xm)
        wn == Len(Rv(w)) xn == Len(Rv(x))
    IN IF wn = 0 \/ xn = 0 THEN (IF ICmp(wn,xn) # 0 THEN ICmp(wn,xn) ELSE rc)
       ELSE CmpRun(Rv(w),Rv(x),1,rm,rc)
  ELSE IF IsArr(w) THEN -Compare(x,w)
  ELSE IF IsArr(x) THEN (IF Rv(x) = <<>> THEN 1 ELSE IF Compare(w,Rv(x)[1]) <= 0 THEN -1 ELSE 1)
  ELSE IF IsChr(w) THEN (IF IsChr(x) THEN ICmp(w[2],x[2]) ELSE 1)
  ELSE IF IsChr(x) THEN -1
  ELSE Cmp(w,x)
\* order is only claimed on data without NaN
RECURSIVE Ordered(_)
Ordered(v) == IF IsArr(v) THEN \A i \in 1..Len(v[3]) : Ordered(v[3][i]) ELSE (IsNum(v) /\ ~IsNaN(v)) \/ IsChr(v)
RECURSIVE HasNaN(_)
HasNaN(v) == IF IsArr(v) THEN \E i \in 1..Len(v[3]) : HasNaN(v[3][i]) ELSE v[1] = 3 /\ v = NAN
HasFn(v) == ~IsArr(v) /\ v[1] = 7

--------------------------------------------------------------------------
(* Scalar functions *)
ChrAdd(c,n) == IF ~IsInt(n) THEN ERR ELSE LET r == c+n[2] IN IF r < 0 \/ r > 1114111 THEN ERR ELSE Ch(r)
Bool(b) == IF b THEN ONE ELSE ZERO

\* integer power where the exact result is below 2^53
PowS(w,x) ==
  IF ~IsNum(w) \/ ~IsNum(x) THEN ERR
  ELSE IF x[1] = 0 /\ x[2] = 0 THEN ONE
  ELSE IF w = ONE THEN ONE
  ELSE IF x[1] = 0 /\ x[2] > 0 /\ x[2] <= 64 /\ IsInteger(w) THEN
       (IF w = ZERO THEN ZERO
        ELSE IF w[1] = 0 /\ Abs(w[2]) > 1 /\ Abs(w[2]) <= 100000 /\ BitLenI(Abs(w[2])-1) * (x[2]-1) <= 60
        THEN LET r == PowN(w,x[2]) IN IF Exact53(r) THEN r ELSE NC
        ELSE IF w = N(-1) THEN (IF x[2] % 2 = 0 THEN ONE ELSE w) ELSE NC)
  ELSE NC

OrdS(w,x,ok(_)) == IF w[1] = 7 \/ x[1] = 7 THEN ERR
                   ELSE IF IsNaN(w) \/ IsNaN(x) THEN (IF IsNum(w) /\ IsNum(x) THEN ZERO ELSE NC)
                   ELSE Bool(ok(Compare(w,x)))
S2(f,w,x) ==
  CASE f = "add" -> IF IsNum(w) THEN (IF IsNum(x) THEN Add(w,x) ELSE IF IsChr(x) THEN ChrAdd(x[2],w) ELSE ERR)
                    ELSE IF IsChr(w) /\ IsNum(x) THEN ChrAdd(w[2],x) ELSE ERR
    [] f = "sub" -> IF IsNum(w) THEN (IF IsNum(x) THEN Sub(w,x) ELSE ERR)
                    ELSE IF IsChr(w) /\ IsNum(x) THEN ChrAdd(w[2],Neg(x))
                    ELSE IF IsChr(w) /\ IsChr(x) THEN N(w[2]-x[2]) ELSE ERR
    [] f = "mul" -> IF IsNum(w) /\ IsNum(x) THEN Mul(w,x) ELSE ERR
    [] f = "div" -> IF IsNum(w) /\ IsNum(x) THEN Div(w,x) ELSE ERR
    [] f = "eq"  -> Bool(w = x /\ w # NAN)
    [] f = "ne"  -> Bool(w # x \/ w = NAN)
    [] f = "lt"  -> OrdS(w,x,LAMBDA c : c < 0)
    [] f = "le"  -> OrdS(w,x,LAMBDA c : c <= 0)
    [] f = "gt"  -> OrdS(w,x,LAMBDA c : c > 0)
    [] f = "ge"  -> OrdS(w,x,LAMBDA c : c >= 0)
    [] f = "floor" -> IF ~(IsNum(w) /\ IsNum(x)) THEN ERR ELSE IF IsNaN(w) \/ IsNaN(x) THEN NC ELSE IF Cmp(w,x) <= 0 THEN w ELSE x
    [] f = "ceil"  -> IF ~(IsNum(w) /\ IsNum(x)) THEN ERR ELSE IF IsNaN(w) \/ IsNaN(x) THEN NC ELSE IF Cmp(w,x) >= 0 THEN w ELSE x
    [] f = "and" -> IF IsNum(w) /\ IsNum(x) THEN Mul(w,x) ELSE ERR
    [] f = "or"  -> IF IsNum(w) /\ IsNum(x) THEN Sub(Add(w,x),Mul(w,x)) ELSE ERR
    [] f = "not" -> IF IsNum(w) /\ IsNum(x) THEN Add(ONE,Sub(w,x))
                    ELSE IF IsChr(w) /\ IsNum(x) THEN LET r == ChrAdd(w[2],Neg(x)) IN IF r = ERR THEN ERR ELSE ChrAdd(r[2],ONE)
                    ELSE IF IsChr(w) /\ IsChr(x) THEN N(1+w[2]-x[2]) ELSE ERR
    [] f = "stile" -> IF IsNum(w) /\ IsNum(x) THEN (IF w = ZERO THEN (IF IsNaN(x) THEN NAN ELSE NC) ELSE Mod(w,x)) ELSE ERR
    [] f = "pow" -> PowS(w,x)
    [] f = "root" -> IF IsNum(w) /\ IsNum(x) THEN NC ELSE ERR
S1(f,x) ==
  IF ~IsNum(x) THEN ERR
  ELSE CASE f = "add" -> x
    [] f = "sub" -> Neg(x)
    [] f = "mul" -> IF IsNaN(x) THEN NC ELSE N(Cmp(x,ZERO))
    [] f = "div" -> Div(ONE,x)
    [] f = "pow" -> IF x = ZERO THEN ONE ELSE NC
    [] f = "root" -> Sqrt(x)
    [] f = "floor" -> Floor(x)
    [] f = "ceil" -> Ceil(x)
    [] f = "not" -> Sub(ONE,x)
    [] f = "stile" -> AbsN(x)

Perv2 == {"add","sub","mul","div","eq","ne","lt","le","gt","ge","floor","ceil","and","or","not","stile","pow","root"}
Perv1 == {"add","sub","mul","div","floor","ceil","not","stile","pow","root"}

PrefixOK(ws,xs) == LET k == MinI(Len(ws),Len(xs)) IN SubSeq(ws,1,k) = SubSeq(xs,1,k)

RECURSIVE PV1(_,_), PV2(_,_,_)
PV1(f,x) == IF IsArr(x) THEN Wrap(x[2], [i \in 1..Len(x[3]) |-> PV1(f,x[3][i])]) ELSE S1(f,x)
PV2(f,w,x) ==
  IF IsArr(w) THEN
    IF IsArr(x) THEN
      IF ~PrefixOK(w[2],x[2]) THEN ERR
      ELSE LET wn == Len(w[3]) xn == Len(x[3]) wr == w[3] xr == x[3] IN
           IF Len(w[2]) = Len(x[2]) THEN Wrap(w[2], [i \in 1..wn |-> PV2(f,wr[i],xr[i])])
           ELSE IF Len(w[2]) > Len(x[2]) THEN LET c == IF xn = 0 THEN 1 ELSE wn \div xn IN Wrap(w[2], [i \in 1..wn |-> PV2(f,wr[i],xr[(i-1) \div c + 1])])
           ELSE LET c == IF wn = 0 THEN 1 ELSE xn \div wn IN Wrap(x[2], [i \in 1..xn |-> PV2(f,wr[(i-1) \div c + 1],xr[i])])
    ELSE LET wr == w[3] IN Wrap(w[2], [i \in 1..Len(wr) |-> PV2(f,wr[i],x)])
  ELSE IF IsArr(x) THEN LET xr == x[3] IN Wrap(x[2], [i \in 1..Len(xr) |-> PV2(f,w,xr[i])])
  ELSE S2(f,w,x)

--------------------------------------------------------------------------
(* Cells and positions *)
CellN(x) == x[2][1]                            \* number of major cells (rank >= 1)
CellSh(x) == Tail(x[2])
CellR(x,i) == LET c == Prod(Tail(x[2])) IN Sub_(x[3], i*c, c)   \* ravel of major cell i (0-based)
CellV(x,i) == Arr(Tail(x[2]), CellR(x,i))
\* ravels of all the major cells, 1-based
Cells(x) == LET c == Prod(Tail(x[2])) r == x[3] IN
            IF c = 1 THEN [i \in 1..x[2][1] |-> <<r[i]>>] ELSE [i \in 1..x[2][1] |-> Sub_(r,(i-1)*c,c)]
Concat(ss) == FoldLeft(LAMBDA a,b : a \o b, <<>>, ss)
\* result of picking major cells by 0-based positions
SelCells(x, ix) ==
  LET c == Prod(Tail(x[2])) r == x[3]
  IN IF c = 1 THEN Arr(<<Len(ix)>> \o Tail(x[2]), [i \in 1..Len(ix) |-> r[ix[i]+1]])
     ELSE Arr(<<Len(ix)>> \o Tail(x[2]), [j \in 1..Len(ix)*c |-> r[ix[(j-1) \div c + 1]*c + ((j-1) % c) + 1]])
\* mixed-radix digits of a 0-based position
RECURSIVE Coord(_,_)
Coord(sh,p) == IF sh = <<>> THEN <<>> ELSE LET t == Prod(Tail(sh)) IN <<p \div t>> \o Coord(Tail(sh), p % t)
RECURSIVE Pos(_,_)
Pos(sh,c) == IF sh = <<>> THEN 0 ELSE c[1]*Prod(Tail(sh)) + Pos(Tail(sh),Tail(c))
\* array of shape sh whose element at coordinates c is F(c)
Build(sh, F(_)) == IF Len(sh) = 1 THEN Arr(sh, [p \in 1..sh[1] |-> F(<<p-1>>)])
                   ELSE Arr(sh, [p \in 1..Prod(sh) |-> F(Coord(sh,p-1))])
At(x,c) == x[3][Pos(x[2],c)+1]
AtL(x) == IF IsArr(x) THEN x ELSE Unit(x)       \* atoms as units

\* left argument that is a number or a list of numbers
NumList(w) == (IsNum(w) \/ (IsArr(w) /\ Rk(w) <= 1)) /\ AllNum(w)

--------------------------------------------------------------------------
(* Structural functions *)
RECURSIVE Depth(_)
Depth(x) == IF ~IsArr(x) THEN 0 ELSE IF x[3] = <<>> THEN 1 ELSE 1 + MaxS({Depth(x[3][i]) : i \in 1..Len(x[3])})

Merge(x) ==
  IF ~IsArr(x) THEN x
  ELSE IF x[3] = <<>> THEN NC
  ELSE LET s == Sh(x[3][1]) IN
    IF \E i \in 1..Len(x[3]) : Sh(x[3][i]) # s THEN ERR
    ELSE IF s = <<>> THEN Arr(x[2], [i \in 1..Len(x[3]) |-> Rv(x[3][i])[1]])
    ELSE Arr(x[2] \o s, LET c == Prod(s) IN [j \in 1..Len(x[3])*c |-> x[3][(j-1) \div c + 1][3][((j-1) % c) + 1]])

Solo(x) == Arr(<<1>> \o Sh(x), Rv(x))
Couple(w,x) == IF Sh(w) # Sh(x) THEN ERR ELSE Arr(<<2>> \o Sh(x), Rv(w) \o Rv(x))

Deshape(x) == List(Rv(x))
\* computed axis: marker <<7,k>> with k naming the function
CompNone == -1
Reshape(w,x) ==
  LET wr == Rv(w) xr == Rv(x) n == Len(xr) IN
  IF Rk(w) > 1 THEN ERR
  ELSE IF Len(wr) > 255 THEN ERR  \* ranks go up to 255
  ELSE IF \E i \in 1..Len(wr) : ~IsNum(wr[i]) /\ wr[i][1] # 7 THEN ERR
  ELSE IF Cardinality({i \in 1..Len(wr) : wr[i][1] = 7}) > 1 THEN ERR
  ELSE IF \E i \in 1..Len(wr) : IsNum(wr[i]) /\ (IF wr[i][1] = 3 THEN ~IsInteger(wr[i]) ELSE wr[i][2] < 0) THEN ERR
  ELSE IF \E i \in 1..Len(wr) : wr[i][1] = 3 THEN NC
  ELSE LET F == {i \in 1..Len(wr) : wr[i][1] = 7} IN
    IF F = {} THEN
      LET sh == [i \in 1..Len(wr) |-> wr[i][2]] IN IF TooBig(sh) THEN NC ELSE LET m == Prod(sh) IN
      IF m > 0 /\ n = 0 THEN NC
      ELSE Arr(sh, IF m = n THEN xr ELSE [i \in 1..m |-> xr[((i-1) % n) + 1]])
    ELSE
      LET k == MinS(F)
          rest == ProdB0([i \in 1..Len(wr) |-> IF i = k THEN 1 ELSE wr[i][2]])
          kind == wr[k][2]       \* 1 atop  2 floor  3 reverse  4 take
      IN IF rest = 0 THEN (IF kind = 1 /\ n > 0 THEN ERR ELSE NC)
         ELSE LET q == IF kind = 1 THEN (IF n % rest = 0 THEN n \div rest ELSE -1)
                       ELSE IF kind = 2 THEN n \div rest
                       ELSE (n + rest - 1) \div rest
                  sh == [i \in 1..Len(wr) |-> IF i = k THEN q ELSE wr[i][2]]
                  m == q * rest
              IN IF q < 0 THEN ERR
                 ELSE IF kind = 4 /\ m > n THEN (IF FillOf(x) = NC THEN NC ELSE Arr(sh, [i \in 1..m |-> IF i <= n THEN xr[i] ELSE FillOf(x)]))
                 ELSE IF n = 0 /\ m > 0 THEN NC
                 ELSE Arr(sh, [i \in 1..m |-> xr[((i-1) % n) + 1]])

RangeB(x) ==
  IF IsNum(x) THEN (IF x[1] # 0 \/ x[2] < 0 THEN ERR ELSE IF x[2] > BIG THEN NC ELSE List([i \in 1..x[2] |-> N(i-1)]))
  ELSE IF ~IsArr(x) \/ Rk(x) # 1 \/ ~AllNum(x) THEN ERR
  ELSE IF ~IntsOnly(x) \/ \E i \in 1..Len(x[3]) : x[3][i][2] < 0 THEN ERR
  ELSE IF TooBig(<<>> \o Ints(x)) THEN NC ELSE Build(Ints(x), LAMBDA c : List([i \in 1..Len(c) |-> N(c[i])]))

Windows(w,x) ==
  IF ~NumList(w) THEN ERR
  ELSE LET k == Len(Rv(w)) s == Sh(x) IN
    IF k > Len(s) \/ ~IntsOnly(w) THEN ERR
    ELSE LET l == Ints(w) IN
      IF \E i \in 1..k : l[i] < 0 \/ l[i] > s[i]+1 THEN ERR
      ELSE IF k = 0 THEN (IF IsArr(x) THEN x ELSE NC)
      ELSE LET rs == [i \in 1..k |-> 1+s[i]-l[i]] \o l \o From(s,k)
           IN IF TooBig(rs) THEN NC ELSE Build(rs, LAMBDA c : At(x, [i \in 1..k |-> c[i]+c[k+i]] \o From(c,2*k)))

\* take/drop first pad the rank of x on the left to the length of w
PadRank(x,k) == LET y == AtL(x) d == k - Rk(y) IN IF d > 0 THEN Arr([i \in 1..d |-> 1] \o y[2], y[3]) ELSE y
Take(w,x) ==
  IF ~NumList(w) THEN ERR
  ELSE IF ~IntsOnly(w) THEN ERR
  ELSE LET k == Len(Rv(w)) l == Ints(w) y == PadRank(x,k) s == y[2]
           rs == [i \in 1..Len(s) |-> IF i <= k THEN Abs(l[i]) ELSE s[i]]
           over == \E i \in 1..k : Abs(l[i]) > s[i]
           off == [i \in 1..Len(s) |-> IF i <= k /\ l[i] < 0 THEN s[i] + l[i] ELSE 0]
           fill == FillOf(y)
       IN IF TooBig(<<>> \o rs) THEN NC ELSE IF over /\ fill = NC /\ Prod(rs) > 0 THEN NC
          ELSE IF Len(s) = 1 THEN Arr(rs, [p \in 1..rs[1] |-> LET q == p+off[1] IN IF q >= 1 /\ q <= s[1] THEN y[3][q] ELSE fill])
          ELSE Build(rs, LAMBDA c : LET d == [i \in 1..Len(s) |-> c[i]+off[i]]
                                    IN IF \A i \in 1..Len(s) : d[i] >= 0 /\ d[i] < s[i] THEN At(y,d) ELSE fill)
Drop(w,x) ==
  IF ~NumList(w) THEN ERR
  ELSE IF ~IntsOnly(w) THEN NC      \* an infinite or huge count empties the axis
  ELSE LET k == Len(Rv(w)) l == Ints(w) y == PadRank(x,k) s == y[2]
           rs == [i \in 1..Len(s) |-> IF i <= k THEN MaxI(0, s[i]-Abs(l[i])) ELSE s[i]]
       IN Build(rs, LAMBDA c : At(y, [i \in 1..Len(s) |-> IF i <= k /\ l[i] > 0 THEN c[i]+l[i] ELSE c[i]]))
BPrefixes(x) == IF Rk(x) = 0 THEN ERR ELSE List([i \in 1..CellN(x)+1 |-> SelCells(x, [j \in 1..i-1 |-> j-1])])
BSuffixes(x) == IF Rk(x) = 0 THEN ERR ELSE LET n == CellN(x) IN List([i \in 1..n+1 |-> SelCells(x, [j \in 1..n-i+1 |-> i-2+j])])

BReverse(x) == IF Rk(x) = 0 THEN ERR ELSE LET n == CellN(x) IN SelCells(x, [i \in 1..n |-> n-i])
Rotate(w,x) ==
  IF ~NumList(w) THEN ERR
  ELSE LET k == Len(Rv(w)) s == Sh(x) IN
    IF k > Len(s) THEN ERR
    ELSE IF \E i \in 1..k : ~IsInteger(Rv(w)[i]) THEN ERR
    ELSE IF ~IntsOnly(w) THEN NC
    ELSE LET l == Ints(w) y == AtL(x) IN
      IF y[3] = <<>> THEN y
      ELSE Build(s, LAMBDA c : At(y, [i \in 1..Len(s) |-> IF i <= k THEN (c[i]+l[i]) % s[i] ELSE c[i]]))

Transpose(x) == IF ~IsArr(x) THEN Unit(x) ELSE IF Rk(x) <= 1 THEN x
  ELSE LET r == Rk(x) IN Build(Tail(x[2]) \o <<x[2][1]>>, LAMBDA c : At(x, <<c[r]>> \o SubSeq(c,1,r-1)))
Reorder(w,x) ==
  IF ~NumList(w) THEN ERR
  ELSE LET k == Len(Rv(w)) s == Sh(x) r == Len(s) IN
    IF k > r \/ ~IntsOnly(w) THEN ERR
    ELSE LET l == Ints(w)
             S == {l[i] : i \in 1..k}
             rr == r - k + Cardinality(S)
         IN IF \E i \in 1..k : l[i] < 0 \/ l[i] >= rr THEN ERR
            ELSE LET free == SetToSortSeq({a \in 0..rr-1 : a \notin S}, LAMBDA a,b : a < b)
                     ax == [i \in 1..r |-> IF i <= k THEN l[i] ELSE free[i-k]]   \* result axis of each argument axis
                     rs == [a \in 1..rr |-> MinS({s[i] : i \in {j \in 1..r : ax[j] = a-1}})]
                 IN IF r = 0 THEN AtL(x) ELSE Build(rs, LAMBDA c : At(x, [i \in 1..r |-> c[ax[i]+1]]))

JoinTo(w,x) ==
  LET r == MaxI(1, MaxI(Rk(w),Rk(x)))
      up(v) == IF Rk(v) = r THEN v ELSE Arr(<<1>> \o Sh(v), Rv(v))
  IN IF Rk(w) < r-1 \/ Rk(x) < r-1 THEN ERR
     ELSE LET a == up(w) b == up(x) IN
       IF Tail(a[2]) # Tail(b[2]) THEN ERR
       ELSE Arr(<<a[2][1]+b[2][1]>> \o Tail(a[2]), a[3] \o b[3])
Join(x) ==
  IF ~IsArr(x) THEN ERR
  ELSE IF Rk(x) = 1 THEN
    IF x[3] = <<>> THEN NC
    ELSE LET r == MaxS({Rk(x[3][i]) : i \in 1..Len(x[3])})
             up(v) == IF Rk(v) = r THEN v ELSE Arr(<<1>> \o Sh(v), Rv(v))
         IN IF r = 0 \/ \E i \in 1..Len(x[3]) : Rk(x[3][i]) < r-1 THEN ERR
            ELSE LET u == [i \in 1..Len(x[3]) |-> up(x[3][i])] IN
              IF \E i \in 1..Len(u) : Tail(u[i][2]) # Tail(u[1][2]) THEN ERR
              ELSE Arr(<<SumS([i \in 1..Len(u) |-> u[i][2][1]])>> \o Tail(u[1][2]), Concat([i \in 1..Len(u) |-> u[i][3]]))
  ELSE IF Rk(x) = 0 THEN (IF IsArr(x[3][1]) THEN x[3][1] ELSE x)
  ELSE IF x[3] = <<>> THEN NC
  ELSE \* rank 2 grid of arrays of one rank >= 2
    IF Rk(x) # 2 \/ \E i \in 1..Len(x[3]) : Rk(x[3][i]) # Rk(x[3][1]) THEN NC
    ELSE IF Rk(x[3][1]) < 2 THEN NC
    ELSE LET R == x[2][1] C == x[2][2] el(i,j) == x[3][(i-1)*C + j]
             rows == [i \in 1..R |-> Sh(el(i,1))[1]]
             cols == [j \in 1..C |-> Sh(el(1,j))[2]]
             tail == From(Sh(el(1,1)),2)
         IN IF \E i \in 1..R : \E j \in 1..C : Sh(el(i,j)) # <<rows[i],cols[j]>> \o tail THEN ERR
            ELSE LET rowOf(p) == CHOOSE i \in 1..R : SumTo(rows,i-1) <= p /\ p < SumTo(rows,i)
                     colOf(p) == CHOOSE j \in 1..C : SumTo(cols,j-1) <= p /\ p < SumTo(cols,j)
                 IN Build(<<SumS(rows),SumS(cols)>> \o tail, LAMBDA c :
                      LET i == rowOf(c[1]) j == colOf(c[2])
                      IN At(el(i,j), <<c[1]-SumTo(rows,i-1), c[2]-SumTo(cols,j-1)>> \o From(c,2)))

ShiftB(w,x) == IF Rk(x) = 0 \/ Rk(w) > Rk(x) THEN ERR ELSE LET j == JoinTo(w,x) IN IF j = ERR THEN ERR ELSE SelCells(j, [i \in 1..CellN(x) |-> i-1])
ShiftA(w,x) == IF Rk(x) = 0 \/ Rk(w) > Rk(x) THEN ERR ELSE LET j == JoinTo(x,w) IN IF j = ERR THEN ERR ELSE LET m == CellN(j) n == CellN(x) IN SelCells(j, [i \in 1..n |-> m-n+i-1])
FillCell(x) == Arr(Tail(x[2]), [i \in 1..Prod(Tail(x[2])) |-> FillOf(x)])
NudgeB(x) == IF Rk(x) = 0 THEN ERR ELSE IF x[3] = <<>> THEN x ELSE IF FillOf(x) = NC THEN NC ELSE ShiftB(FillCell(x),x)
NudgeA(x) == IF Rk(x) = 0 THEN ERR ELSE IF x[3] = <<>> THEN x ELSE IF FillOf(x) = NC THEN NC ELSE ShiftA(FillCell(x),x)

--------------------------------------------------------------------------
(* Selection *)
\* 0-based position of index v on an axis of length n, or -1
Ix(v,n) == IF v[1] # 0 THEN -1 ELSE IF v[2] >= 0 THEN (IF v[2] < n THEN v[2] ELSE -1) ELSE (IF -v[2] <= n THEN v[2]+n ELSE -1)
IxAll(r,n) == \A i \in 1..Len(r) : Ix(r[i],n) >= 0

Select(w,x) ==
  IF Rk(x) = 0 THEN ERR
  ELSE IF IsNum(w) \/ (IsArr(w) /\ w[3] # <<>> /\ \A i \in 1..Len(w[3]) : ~IsArr(w[3][i])) THEN
    LET r == Rv(w) n == CellN(x) IN
    IF ~IxAll(r,n) THEN ERR
    ELSE Arr(Sh(w) \o CellSh(x), SelCells(x, [i \in 1..Len(r) |-> Ix(r[i],n)])[3])
  ELSE IF ~IsArr(w) THEN ERR
  ELSE IF w[3] = <<>> THEN (IF Rk(w) = 1 THEN NC ELSE Arr(w[2] \o CellSh(x), <<>>))
  ELSE IF Rk(w) > 1 THEN ERR
  ELSE IF \E i \in 1..Len(w[3]) : ~IsArr(w[3][i]) THEN NC
  ELSE LET k == Len(w[3]) s == Sh(x) IN
    IF k > Len(s) THEN ERR
    ELSE IF \E i \in 1..k : ~IxAll(w[3][i][3], s[i]) THEN ERR
    ELSE LET rks == [i \in 1..k |-> Rk(w[3][i])]
             ofs(i) == SumTo(rks,i-1)
             rs == Concat([i \in 1..k |-> Sh(w[3][i])]) \o From(s,k)
         IN Build(rs, LAMBDA c : At(x, [i \in 1..k |-> Ix(At(w[3][i], SubSeq(c, ofs(i)+1, ofs(i)+rks[i])), s[i])] \o From(c, SumS(rks))))
FirstCell(x) == IF Rk(x) = 0 \/ (Rk(x) > 0 /\ CellN(x) = 0) THEN ERR ELSE CellV(x,0)

First(x) == IF ~IsArr(x) THEN x ELSE IF x[3] = <<>> THEN ERR ELSE x[3][1]
\* position (0-based) addressed in x by an index list (sequence of numbers), or -1
PickPos(ix,x) == IF Len(ix) # Rk(x) THEN -1
                 ELSE IF \E i \in 1..Len(ix) : Ix(ix[i],Sh(x)[i]) < 0 THEN -1
                 ELSE Pos(Sh(x), [i \in 1..Len(ix) |-> Ix(ix[i],Sh(x)[i])])
RECURSIVE Pick(_,_)
Pick(w,x) ==
  IF IsNum(w) THEN (IF Rk(x) # 1 THEN ERR ELSE LET p == PickPos(<<w>>,x) IN IF p < 0 THEN ERR ELSE x[3][p+1])
  ELSE IF ~IsArr(w) THEN ERR
  ELSE IF \A i \in 1..Len(w[3]) : ~IsArr(w[3][i]) THEN
    IF Rk(w) # 1 THEN ERR
    ELSE IF ~IsArr(x) THEN (IF w[3] = <<>> THEN x ELSE ERR)
    ELSE LET p == PickPos(w[3],x) IN IF p < 0 THEN ERR ELSE x[3][p+1]
  ELSE IF \E i \in 1..Len(w[3]) : ~IsArr(w[3][i]) THEN ERR
  ELSE Wrap(w[2], [i \in 1..Len(w[3]) |-> Pick(w[3][i],x)])

--------------------------------------------------------------------------
(* Searching *)
\* cells of x of rank r as a sequence of ravels, with the frame shape
FrameSh(x,r) == SubSeq(Sh(x), 1, Rk(x)-r)
CellsRk(x,r) == LET y == AtL(x) cs == SubSeq(y[2], Rk(y)-r+1, Rk(y)) c == Prod(cs)
                IN [i \in 1..Prod(FrameSh(y,r)) |-> Sub_(y[3],(i-1)*c,c)]
FrameCellSh(x,r) == SubSeq(Sh(x), Rk(x)-r+1, Rk(x))
\* first i with s[i] = v, else Len(s)+1
RECURSIVE FirstEq(_,_,_)
FirstEq(s,v,i) == IF i > Len(s) THEN i ELSE IF s[i] = v THEN i ELSE FirstEq(s,v,i+1)
IndexOf(w,x) ==
  IF Rk(w) = 0 THEN ERR
  ELSE LET r == Rk(w)-1 IN
    IF Rk(x) < r THEN ERR
    ELSE LET ws == Cells(w) xs == CellsRk(x,r) n == Len(ws) IN
      IF FrameCellSh(x,r) # Tail(w[2]) THEN Arr(FrameSh(x,r), [i \in 1..Len(xs) |-> N(n)])
      ELSE Arr(FrameSh(x,r), [i \in 1..Len(xs) |-> N(FirstEq(ws,xs[i],1)-1)])
MemberOf(w,x) ==
  IF Rk(x) = 0 THEN ERR
  ELSE LET y == IndexOf(x,w) IN IF y = ERR THEN ERR ELSE Arr(y[2], [i \in 1..Len(y[3]) |-> Bool(y[3][i][2] < CellN(x))])
\* progressive index: each cell of w is used at most once
ProgIndex(w,x) ==
  IF Rk(w) = 0 THEN ERR
  ELSE LET r == Rk(w)-1 IN
    IF Rk(x) < r THEN ERR
    ELSE LET ws == Cells(w) xs == CellsRk(x,r) n == Len(ws)
             same == FrameCellSh(x,r) = Tail(w[2])
             \* k-th occurrence in x goes to the k-th occurrence in w
             step(st,v) == LET S == IF same THEN {i \in 1..n : i \notin st[2] /\ ws[i] = v} ELSE {}
                           IN IF S = {} THEN <<Append(st[1],N(n)), st[2]>>
                              ELSE LET i == MinS(S) IN <<Append(st[1],N(i-1)), st[2] \cup {i}>>
         IN Arr(FrameSh(x,r), FoldLeft(step, <<<<>>,{}>>, xs)[1])
Firsts(cs) == [i \in 1..Len(cs) |-> FirstEq(cs,cs[i],1)]       \* 1-based position of the first equal cell
MarkFirsts(x) == IF Rk(x) = 0 THEN ERR ELSE LET f == Firsts(Cells(x)) IN List([i \in 1..Len(f) |-> Bool(f[i] = i)])
Dedup(x) == IF Rk(x) = 0 THEN ERR ELSE LET f == Firsts(Cells(x)) IN SelCells(x, SelectSeq([i \in 1..Len(f) |-> IF f[i] = i THEN i-1 ELSE -1], LAMBDA p : p >= 0))
Classify(x) == IF Rk(x) = 0 THEN ERR
  ELSE LET f == Firsts(Cells(x))
           ids == FoldLeft(LAMBDA st,i : IF f[i] = i THEN <<Append(st[1], st[2]), st[2]+1>> ELSE <<Append(st[1], st[1][f[i]]), st[2]>>, <<<<>>,0>>, [i \in 1..Len(f) |-> i])[1]
       IN List([i \in 1..Len(f) |-> N(ids[i])])
OccCount(x) == IF Rk(x) = 0 THEN ERR
  ELSE LET f == Firsts(Cells(x))
           cnt == FoldLeft(LAMBDA st,i : <<Append(st[1], st[2][f[i]]), [st[2] EXCEPT ![f[i]] = @+1]>>, <<<<>>,[i \in 1..Len(f) |-> 0]>>, [i \in 1..Len(f) |-> i])[1]
       IN List([i \in 1..Len(f) |-> N(cnt[i])])
FindIn(w,x) ==
  LET wr == Rk(w) xr == Rk(x) IN
  IF wr > xr THEN ERR
  ELSE LET l == xr-wr ws == Sh(w) xs == Sh(x)
           rs == [i \in 1..xr |-> IF i <= l THEN xs[i] ELSE MaxI(0, 1+xs[i]-ws[i-l])]
           W == AtL(w) X == AtL(x)
       IN IF wr = 1 /\ xr = 1 THEN Arr(rs, [p \in 1..rs[1] |-> Bool(\A j \in 1..ws[1] : W[3][j] = X[3][p-1+j])])
          ELSE Build(rs, LAMBDA c : Bool(\A q \in 1..Len(W[3]) : W[3][q] = At(X, SubSeq(c,1,l) \o [i \in 1..wr |-> c[l+i] + Coord(ws,q-1)[i]])))

--------------------------------------------------------------------------
(* Ordering *)
CmpCells(sh,a,b) == IF sh = <<>> THEN Compare(a[1],b[1]) ELSE CmpRun(a,b,1,Len(a),0)  \* cells of one array: same shape
\* stable merge sort of 1-based positions by le(i,j): "i may come before j"
\* positions i may stay before j when sg * (cell i compared to cell j) <= 0
RECURSIVE Merge2(_,_,_,_,_,_,_,_), MSort(_,_,_,_)
Merge2(a,b,i,j,acc,cs,sh,sg) ==
  IF i > Len(a) THEN acc \o SubSeq(b,j,Len(b))
  ELSE IF j > Len(b) THEN acc \o SubSeq(a,i,Len(a))
  ELSE IF sg*CmpCells(sh,cs[a[i]],cs[b[j]]) <= 0 THEN Merge2(a,b,i+1,j,Append(acc,a[i]),cs,sh,sg) ELSE Merge2(a,b,i,j+1,Append(acc,b[j]),cs,sh,sg)
MSort(s,cs,sh,sg) == IF Len(s) <= 1 THEN s
                     ELSE LET m == Len(s) \div 2 IN Merge2(MSort(SubSeq(s,1,m),cs,sh,sg), MSort(SubSeq(s,m+1,Len(s)),cs,sh,sg), 1, 1, <<>>, cs, sh, sg)
GradeIx(x,up) == LET cs == Cells(x) IN MSort([i \in 1..Len(cs) |-> i], cs, Tail(x[2]), IF up THEN 1 ELSE -1)
RankOK(x) == Rk(x) > 0
Grade(x,up) == IF Rk(x) = 0 THEN ERR ELSE IF ~Ordered(x) THEN NC ELSE LET g == GradeIx(x,up) IN List([i \in 1..Len(g) |-> N(g[i]-1)])
Sort(x,up) == IF Rk(x) = 0 THEN ERR ELSE IF ~Ordered(x) THEN NC ELSE LET g == GradeIx(x,up) IN SelCells(x, [i \in 1..Len(g) |-> g[i]-1])
Bins(w,x,up) ==
  IF Rk(w) = 0 THEN ERR
  ELSE LET r == Rk(w)-1 IN
    IF Rk(x) < r THEN ERR
    ELSE IF ~Ordered(w) \/ ~Ordered(x) THEN NC
    ELSE LET ws == Cells(w) xs == CellsRk(x,r) n == Len(ws) csh == Tail(w[2])
             xsh == FrameCellSh(x,r)
             cmp(a,b) == IF r = 0 THEN Compare(a[1],b[1]) ELSE Compare(Arr(csh,a),Arr(xsh,b))
             sgn == IF up THEN 1 ELSE -1
             RECURSIVE cnt(_,_,_)   \* number of ws that come at or before v: binary search in lo..hi
             cnt(v,lo,hi) == IF lo >= hi THEN lo ELSE LET m == (lo+hi) \div 2 IN IF sgn*cmp(ws[m+1],v) <= 0 THEN cnt(v,m+1,hi) ELSE cnt(v,lo,m)
         IN IF \E i \in 1..n-1 : sgn * CmpCells(csh,ws[i],ws[i+1]) > 0 THEN (IF xs = <<>> THEN NC ELSE ERR)
            ELSE Arr(FrameSh(x,r), [i \in 1..Len(xs) |-> N(cnt(xs[i],0,n))])

--------------------------------------------------------------------------
(* Replicate, indices, group *)
IndicesSeq(l) == FoldLeft(LAMBDA acc,i : IF l[i] = 0 THEN acc ELSE IF l[i] = 1 THEN Append(acc,i-1) ELSE acc \o [k \in 1..l[i] |-> i-1], <<>>, [i \in 1..Len(l) |-> i])
Naturals(v) == \A i \in 1..Len(Rv(v)) : Rv(v)[i][1] = 0 /\ Rv(v)[i][2] >= 0
Indices(x) == IF Rk(x) # 1 THEN ERR ELSE IF ~Naturals(x) THEN ERR ELSE IF SumB(Ints(x)) > BIG THEN NC ELSE LET s == IndicesSeq(Ints(x)) IN List([i \in 1..Len(s) |-> N(s[i])])
Replicate(w,x) ==
  IF Rk(w) > 1 THEN ERR
  ELSE IF \E i \in 1..Len(Rv(w)) : IsArr(Rv(w)[i]) THEN NC        \* several axes
  ELSE IF Rk(x) = 0 THEN (IF IsArr(w) /\ w[3] = <<>> THEN NC ELSE ERR)
  ELSE IF Rk(w) = 0 THEN
    IF ~Naturals(w) THEN ERR ELSE IF TooBig(<<Ints(w)[1]>> \o Sh(x)) THEN NC ELSE LET c == Ints(w)[1] n == CellN(x) IN SelCells(x, [i \in 1..n*c |-> (i-1) \div c])
  ELSE IF Len(w[3]) # CellN(x) THEN (IF w[3] = <<>> THEN NC ELSE ERR)
  ELSE IF ~Naturals(w) THEN ERR
  ELSE IF TooBig(<<SumB(Ints(w)), Prod(CellSh(x))>>) THEN NC ELSE SelCells(x, IndicesSeq(Ints(w)))
Group(w,x) ==
  IF Rk(x) = 0 THEN ERR
  ELSE IF Rk(w) # 1 THEN (IF Rk(w) = 0 /\ ~IsArr(w) THEN ERR ELSE NC)
  ELSE IF \E i \in 1..Len(w[3]) : IsArr(w[3][i]) THEN NC
  ELSE LET n == CellN(x) m == Len(w[3]) IN
    IF m # n /\ m # n+1 THEN ERR
    ELSE IF \E i \in 1..m : w[3][i][1] # 0 \/ w[3][i][2] < -1 THEN (IF \E i \in 1..m : IsNum(w[3][i]) /\ w[3][i][1] = 3 /\ IsInteger(w[3][i]) /\ ~Signed(w[3][i]) THEN NC ELSE ERR)
    ELSE LET l == Ints(w)
             len == IF m > n THEN MaxS({l[i] + 1 : i \in 1..n} \cup {l[m], 0}) ELSE MaxS({l[i] + 1 : i \in 1..n} \cup {0})
             bk == FoldLeft(LAMBDA a,i : IF l[i] < 0 THEN a ELSE [a EXCEPT ![l[i]+1] = Append(@, i-1)], [g \in 1..len |-> <<>>], [i \in 1..n |-> i])
         IN IF len > BIG THEN NC ELSE List([g \in 1..len |-> SelCells(x, bk[g])])

--------------------------------------------------------------------------
(* All primitives.  w = NOW for monadic application *)
\* matching is claimed for data without NaN
Matching == {"match","nmatch","indexOf","count","memberOf","find"}
Prim1(f,x) ==
  CASE f \in Perv1 -> PV1(f,x)
    [] f \in Matching \ {"match","nmatch"} /\ HasNaN(x) -> NC
    [] f \in {"ltack","rtack"} -> x
    [] f = "eq" -> N(Rk(x))
    [] f = "ne" -> N(IF Rk(x) = 0 THEN 1 ELSE CellN(x))
    [] f = "lt" -> Unit(x)
    [] f = "gt" -> Merge(x)
    [] f \in {"le","ge"} -> ERR
    [] f = "match" -> N(Depth(x))
    [] f = "nmatch" -> List([i \in 1..Rk(x) |-> N(Sh(x)[i])])
    [] f = "shape" -> Deshape(x)
    [] f = "join" -> Join(x)
    [] f = "couple" -> Solo(x)
    [] f = "pair" -> List(<<x>>)
    [] f = "take" -> BPrefixes(x)
    [] f = "drop" -> BSuffixes(x)
    [] f = "ud" -> RangeB(x)
    [] f = "shb" -> NudgeB(x)
    [] f = "sha" -> NudgeA(x)
    [] f = "rev" -> BReverse(x)
    [] f = "transp" -> Transpose(x)
    [] f = "slash" -> Indices(x)
    [] f = "gradeU" -> Grade(x,TRUE)
    [] f = "gradeD" -> Grade(x,FALSE)
    [] f = "and" -> Sort(x,TRUE)
    [] f = "or" -> Sort(x,FALSE)
    [] f = "select" -> FirstCell(x)
    [] f = "pick" -> First(x)
    [] f = "indexOf" -> Classify(x)
    [] f = "count" -> OccCount(x)
    [] f = "memberOf" -> MarkFirsts(x)
    [] f = "find" -> Dedup(x)
    [] f = "group" -> IF Rk(x) # 1 THEN (IF Rk(x) = 0 THEN ERR ELSE NC) ELSE LET n == CellN(x) IN Group(x, List([i \in 1..n |-> N(i-1)]))
    [] f = "assert" -> IF x = ONE THEN x ELSE ERR
Prim2(f,w,x) ==
  CASE f \in Perv2 -> PV2(f,w,x)
    [] f \in Matching /\ (HasNaN(w) \/ HasNaN(x)) -> NC
    [] f = "ltack" -> w
    [] f = "rtack" -> x
    [] f = "match" -> Bool(w = x)
    [] f = "nmatch" -> Bool(w # x)
    [] f = "shape" -> Reshape(w,x)
    [] f = "join" -> JoinTo(w,x)
    [] f = "couple" -> Couple(w,x)
    [] f = "pair" -> List(<<w,x>>)
    [] f = "take" -> Take(w,x)
    [] f = "drop" -> Drop(w,x)
    [] f = "ud" -> Windows(w,x)
    [] f = "shb" -> ShiftB(w,x)
    [] f = "sha" -> ShiftA(w,x)
    [] f = "rev" -> Rotate(w,x)
    [] f = "transp" -> Reorder(w,x)
    [] f = "slash" -> Replicate(w,x)
    [] f = "gradeU" -> Bins(w,x,TRUE)
    [] f = "gradeD" -> Bins(w,x,FALSE)
    [] f = "select" -> Select(w,x)
    [] f = "pick" -> Pick(w,x)
    [] f = "indexOf" -> IndexOf(w,x)
    [] f = "count" -> ProgIndex(w,x)
    [] f = "memberOf" -> MemberOf(w,x)
    [] f = "find" -> FindIn(w,x)
    [] f = "group" -> Group(w,x)
    [] f = "assert" -> IF x = ONE THEN x ELSE ERR

\* identity elements of folds
Ident(f) == CASE f \in {"add","sub","or","ne","gt"} -> ZERO
              [] f \in {"mul","div","and","eq","ge","pow","not"} -> ONE
              [] f = "floor" -> INF
              [] f = "ceil" -> NINF
              [] OTHER -> ERR
--------------------------------------------------------------------------
(* Function terms:                                                          *)
(*   [k |-> "p", n |-> name]            primitive                           *)
(*   [k |-> "y", n |-> name]            member of •math                     *)
(*   [k |-> "c", v |-> value]           constant operand                    *)
(*   [k |-> "m1", n |-> name, f |-> t]  1-modifier                          *)
(*   [k |-> "m2", n |-> name, f |-> t, g |-> t]                             *)
(*   [k |-> "t2", g |-> t, h |-> t]     atop train                          *)
(*   [k |-> "t3", f |-> t, g |-> t, h |-> t]                                *)
\* results that must not be looked into stop here
Chk(v) == IF IsBad(v) THEN v ELSE IF Tainted(v) THEN NC ELSE v

--------------------------------------------------------------------------
(* Undo.  A result r of undoing F on x is right when F applied to r gives x *)
(* back: a preimage is constructed, and Undo is an error unless it is one.  *)
UndoPrim1(f,x) ==      \* preimages of the primitives
  CASE f = "sub" -> PV1("sub",x)
    [] f \in {"ltack","rtack"} -> x
    [] f = "rev" -> BReverse(x)
    [] f = "lt" -> IF IsArr(x) /\ Rk(x) = 0 THEN x[3][1] ELSE ERR
    [] f = "pair" -> IF IsArr(x) /\ x[2] = <<1>> THEN x[3][1] ELSE ERR
    [] f = "couple" -> IF IsArr(x) /\ Rk(x) >= 1 /\ x[2][1] = 1 THEN Arr(Tail(x[2]), x[3]) ELSE ERR
    [] f = "transp" -> IF ~IsArr(x) THEN ERR ELSE IF Rk(x) <= 1 THEN x
                       ELSE LET r == Rk(x) s == x[2] IN Build(<<s[r]>> \o SubSeq(s,1,r-1), LAMBDA c : At(x, SubSeq(c,2,r) \o <<c[1]>>))
    [] f = "slash" -> IF ~IsArr(x) \/ Rk(x) # 1 THEN ERR ELSE IF x[3] = <<>> THEN List(<<>>)
                      ELSE IF ~Naturals(x) THEN (IF \E i \in 1..Len(x[3]) : x[3][i][1] = 3 /\ IsInteger(x[3][i]) /\ ~Signed(x[3][i]) THEN NC ELSE ERR)
                      ELSE LET l == Ints(x) m == MaxS({l[i] : i \in 1..Len(l)})
                               c == FoldLeft(LAMBDA a,v : [a EXCEPT ![v+1] = @ + 1], TLCEval([i \in 1..m+1 |-> 0]), l)
                           IN IF m > 60000 THEN NC ELSE List([i \in 1..m+1 |-> N(c[i])])
    [] OTHER -> NC
RECURSIVE PowRoot(_,_,_)
PowRoot(w,v,k) == IF v = 1 THEN N(k) ELSE IF v <= 0 \/ v % w # 0 THEN NC ELSE PowRoot(w, v \div w, k+1)
RECURSIVE UndoPow(_,_)
UndoPow(w,x) ==        \* exponents of exact powers of natural numbers
  IF IsArr(x) THEN (IF IsArr(w) THEN (IF w[2] # x[2] THEN NC ELSE Wrap(x[2], [i \in 1..Len(x[3]) |-> UndoPow(w[3][i],x[3][i])])) ELSE Wrap(x[2], [i \in 1..Len(x[3]) |-> UndoPow(w,x[3][i])]))
  ELSE IF IsArr(w) THEN Wrap(w[2], [i \in 1..Len(w[3]) |-> UndoPow(w[3][i],x)])
  ELSE IF ~IsNum(w) \/ ~IsNum(x) THEN ERR ELSE IF w[1] # 0 \/ x[1] # 0 \/ w[2] < 2 THEN NC ELSE PowRoot(w[2],x[2],0)
InvPerm(w,x) ==        \* axes for undoing w⍉
  LET l == Ints(w) k == Len(l) r == Rk(x) fr == SetToSortSeq({a \in 0..r-1 : \A i \in 1..k : l[i] # a}, LAMBDA a,b : a < b)
      ax == TLCEval([i \in 1..r |-> IF i <= k THEN l[i] ELSE fr[i-k]])
  IN [a \in 1..r |-> N((CHOOSE i \in 1..r : ax[i] = a-1) - 1)]
UndoPrim2(f,w,x) ==    \* 𝕩 from 𝕨 and the result
  CASE f = "rev" -> IF ~IsArr(x) \/ Rk(x) = 0 \/ (IsArr(w) /\ Rk(w) > 1) THEN ERR ELSE IF ~NumList(w) THEN ERR ELSE IF ~IntsOnly(w) THEN (IF \A i \in 1..Len(Rv(w)) : IsInteger(Rv(w)[i]) \/ IsInf(Rv(w)[i]) THEN NC ELSE ERR) ELSE Rotate(PV1("sub",w),x)
    [] f = "transp" -> IF ~IsArr(x) THEN ERR ELSE IF ~NumList(w) THEN ERR
                       ELSE LET k == Len(Rv(w)) IN IF k > Rk(x) \/ ~IntsOnly(w) THEN ERR
                       ELSE IF \E i \in 1..k : Ints(w)[i] < 0 \/ Ints(w)[i] >= Rk(x) THEN ERR
                       ELSE IF Cardinality({Ints(w)[i] : i \in 1..k}) # k THEN ERR
                       ELSE IF Rk(x) = 0 THEN x ELSE Reorder(List(InvPerm(w,x)),x)
    [] f = "pow" -> UndoPow(w,x)
    [] OTHER -> NC
\* the order of the indices is not recovered
UndoSorts(t) == t.k = "p" /\ t.n = "slash"
RECURSIVE UndoC(_,_,_,_), SwapOnly(_)
SwapOnly(t) == t.k = "p" \/ t.k = "y" \/ (t.k = "m1" /\ t.n = "swap" /\ SwapOnly(t.f))
UndoC(t,side,w,x) ==   \* side: the argument that is wanted
  CASE t.k = "p" -> IF w = NOW THEN UndoPrim1(t.n,x) ELSE IF side = "x" THEN UndoPrim2(t.n,w,x) ELSE NC
    [] t.k = "m1" /\ t.n = "swap" -> IF w = NOW THEN NC ELSE UndoC(t.f, IF side = "x" THEN "w" ELSE "x", w, x)
    [] t.k = "m2" /\ t.n = "before" /\ t.f.k = "c" /\ w = NOW -> UndoC(t.g,"x",t.f.v,x)
    [] t.k = "m2" /\ t.n = "after" /\ t.g.k = "c" /\ w = NOW -> UndoC(t.f,"w",t.g.v,x)
    [] OTHER -> NC
\* F (F⁼ x): x itself, up to rounding, where F reaches x
Within(lo,x,hi,u) == LET y == PV2("mul",N(u),x) IN PV2("le",N(lo),y) = ONE /\ PV2("le",y,N(hi)) = ONE
RangeOf(n,x) ==
  CASE n \in {"sin","cos"} -> Within(-1,x,1,1)
    [] n = "tanh" -> Within(-15,x,15,16)
    [] n \in {"tan","sinh","asinh","expm1"} -> IF n = "expm1" THEN Within(-15,x,1000*16,16) ELSE Within(-1000,x,1000,1)
    [] n = "cosh" -> Within(1,x,1000,1)
    [] n \in {"asin","atan"} -> Within(-3,x,3,2)
    [] n = "acos" -> Within(0,x,3,1)
    [] n \in {"acosh"} -> Within(0,x,20,1)
    [] n = "atanh" -> Within(-5,x,5,1)
    [] n = "log1p" -> Within(-5,x,20,1)
    [] n = "fact" -> Within(1,x,100000,1)
    [] n = "logfact" -> Within(1,x,3000,16)
    [] n = "pow" -> Within(1,x,1000*16,16)
    [] OTHER -> FALSE
RECURSIVE BackV(_,_,_)
BackV(t,w,x) ==
  IF w # NOW /\ (IsArr(w) \/ IsArr(x)) THEN
    (IF IsArr(w) /\ IsArr(x) /\ w[2] # x[2] THEN NC
     ELSE LET s == IF IsArr(x) THEN x[2] ELSE w[2] n == Prod(s) IN Wrap(s, [i \in 1..n |-> BackV(t, IF IsArr(w) THEN w[3][i] ELSE w, IF IsArr(x) THEN x[3][i] ELSE x)]))
  ELSE IF w = NOW /\ IsArr(x) THEN Wrap(x[2], [i \in 1..Len(x[3]) |-> BackV(t,NOW,x[3][i])])
  ELSE IF ~IsNum(x) \/ (w # NOW /\ ~IsNum(w)) THEN ERR
  ELSE IF w = NOW THEN (IF t.k \in {"y","p"} /\ RangeOf(t.n,x) THEN x ELSE NC)
  ELSE IF t.k = "y" /\ t.n = "atan2" /\ Within(1,w,8*100,8) /\ Within(-3,x,3,2) THEN x
  ELSE IF t.k = "m1" /\ t.n = "swap" /\ t.f.k = "y" /\ t.f.n = "atan2" /\ Within(1,w,8*100,8) /\ Within(1,x,45,16) THEN x
  ELSE IF t.k = "p" /\ t.n = "pow" /\ Within(5,w,400,4) /\ Within(1,x,1000*16,16) THEN x
  ELSE NC

RECURSIVE Ap(_,_,_), Undo(_,_,_), RepN(_,_,_,_), RepV(_,_,_,_), FoldR(_,_,_,_), ScanC(_,_,_,_,_), UnderS(_,_,_,_)

\* undoing t: the preimage found must be one
Undo(t,w,x) == LET r == UndoC(t,"x",w,x) IN
               IF IsBad(r) THEN r
               ELSE IF UndoSorts(t) THEN (IF Len(r[3]) > 1500 THEN r ELSE IF SumB(Ints(r)) > BIG THEN NC ELSE IF (IF x[3] = <<>> THEN x ELSE Sort(x,TRUE)) = Ap(t,w,r) THEN r ELSE ERR)
               ELSE IF w # NOW /\ SwapOnly(t) /\ t.k = "p" /\ t.n = "pow" THEN r
               ELSE IF Ap(t,w,r) = x THEN r ELSE ERR

Combine(sh, rs0) == LET rs == <<>> \o rs0 IN IF \E i \in 1..Len(rs) : rs[i] = ERR THEN ERR
                   ELSE IF \E i \in 1..Len(rs) : rs[i] = NC THEN NC ELSE Arr(sh,rs)

EachMap(t,w,x) ==
  IF w = NOW THEN LET y == AtL(x) IN Combine(y[2], [i \in 1..Len(y[3]) |-> Ap(t,NOW,y[3][i])])
  ELSE LET a == AtL(w) b == AtL(x) an == Len(a[3]) bn == Len(b[3]) IN
    IF ~PrefixOK(a[2],b[2]) THEN ERR
    ELSE IF Len(a[2]) >= Len(b[2]) THEN LET c == IF bn = 0 THEN 1 ELSE an \div bn IN Combine(a[2], [i \in 1..an |-> Ap(t,a[3][i],b[3][(i-1) \div c + 1])])
    ELSE LET c == IF an = 0 THEN 1 ELSE bn \div an IN Combine(b[2], [i \in 1..bn |-> Ap(t,a[3][(i-1) \div c + 1],b[3][i])])
\* depth 0: descend to atoms, pairing leading axes on the way
RECURSIVE Depth0(_,_,_)
Depth0(t,w,x) ==
  IF w = NOW THEN IF IsArr(x) THEN Combine(x[2], [i \in 1..Len(x[3]) |-> Depth0(t,NOW,x[3][i])]) ELSE Ap(t,NOW,x)
  ELSE IF ~IsArr(w) /\ ~IsArr(x) THEN Ap(t,w,x)
  ELSE IF ~IsArr(w) THEN Combine(x[2], [i \in 1..Len(x[3]) |-> Depth0(t,w,x[3][i])])
  ELSE IF ~IsArr(x) THEN Combine(w[2], [i \in 1..Len(w[3]) |-> Depth0(t,w[3][i],x)])
  ELSE IF ~PrefixOK(w[2],x[2]) THEN ERR
  ELSE LET an == Len(w[3]) bn == Len(x[3]) IN
    IF Len(w[2]) >= Len(x[2]) THEN LET c == IF bn = 0 THEN 1 ELSE an \div bn IN Combine(w[2], [i \in 1..an |-> Depth0(t,w[3][i],x[3][(i-1) \div c + 1])])
    ELSE LET c == IF an = 0 THEN 1 ELSE bn \div an IN Combine(x[2], [i \in 1..bn |-> Depth0(t,w[3][(i-1) \div c + 1],x[3][i])])
TableMap(t,w,x) ==
  IF w = NOW THEN EachMap(t,w,x)
  ELSE IF TooBig(Sh(w) \o Sh(x)) THEN NC
  ELSE LET a == AtL(w) b == AtL(x) bn == Len(b[3]) IN
    Combine(a[2] \o b[2], [i \in 1..Len(a[3])*bn |-> Ap(t, a[3][(i-1) \div bn + 1], b[3][((i-1) % bn) + 1])])

\* fold list of values from the last to the first
FoldR(t,s,n,a0) == FoldLeft(LAMBDA acc,i : IF IsBad(acc) THEN acc ELSE Chk(Ap(t,s[n-i],acc)), a0, [i \in 1..n |-> i-1])
\* identity of an operand for empty reductions: its value, or ERR
RECURSIVE IdentT(_)
IdentT(t) == IF t.k = "p" THEN Ident(t.n)
             ELSE IF t.k = "m1" /\ t.n = "tbl" THEN (LET i == IdentT(t.f) IN IF IsBad(i) THEN i ELSE Unit(i))
             ELSE ERR
Fold(t,w,x) ==
  IF ~IsArr(x) \/ Rk(x) # 1 THEN ERR
  ELSE LET s == x[3] n == Len(s) IN
    IF w # NOW THEN FoldR(t,s,n,w)
    ELSE IF n = 0 THEN IdentT(t)
    ELSE FoldR(t,s,n-1,s[n])
Insert(t,w,x) ==
  IF ~IsArr(x) \/ Rk(x) = 0 THEN ERR
  ELSE LET n == CellN(x) s == <<>> \o [i \in 1..n |-> CellV(x,i-1)] IN
    IF w # NOW THEN FoldR(t,s,n,w)
    ELSE IF n = 0 THEN
      IF t.k = "p" /\ t.n = "join" THEN (IF Rk(x) = 1 THEN ERR ELSE Arr(<<0>> \o From(x[2],2), <<>>))
      ELSE LET i == IdentT(t) IN
        IF IsBad(i) \/ IsArr(i) THEN i ELSE Arr(CellSh(x), [j \in 1..Prod(CellSh(x)) |-> i])
    ELSE FoldR(t,s,n-1,s[n])
\* scan along the first axis: column-wise element application
\* acc: ravel so far; i: next element (1-based); result <<ERR>> when an application is an error
ScanC(t,x,c,i0,a0) ==
  FoldLeft(LAMBDA acc,i : IF acc = <<ERR>> THEN acc
                          ELSE LET v == IF Tainted(acc[i-c]) THEN NC ELSE Ap(t, acc[i-c], x[i]) IN IF v = ERR THEN <<ERR>> ELSE Append(acc,v),
           a0, [k \in 1..Len(x)-i0+1 |-> i0+k-1])
Scan(t,w,x) ==
  IF ~IsArr(x) \/ Rk(x) = 0 THEN ERR
  ELSE LET c == Prod(CellSh(x)) r == x[3] IN
    IF w = NOW THEN
      IF r = <<>> THEN x
      ELSE LET y == ScanC(t,r,c,c+1,SubSeq(r,1,c)) IN IF y = <<ERR>> /\ Len(r) # 1 THEN ERR ELSE IF y = <<ERR>> THEN ERR ELSE Chk(Arr(x[2],y))
    ELSE IF Sh(w) # CellSh(x) THEN ERR
    ELSE IF r = <<>> THEN x
    ELSE LET fst == <<>> \o [i \in 1..c |-> Ap(t, Rv(w)[i], r[i])] IN
         IF \E i \in 1..c : fst[i] = ERR THEN ERR
         ELSE LET y == ScanC(t,r,c,c+1,fst) IN IF y = <<ERR>> THEN ERR ELSE Chk(Arr(x[2],y))

\* rank modifier: r is a number >= 0 or negative = frame size
EffRank(k,r) == IF k >= 0 THEN MinI(k,r) ELSE MaxI(0,r+k)
FrameOf(x,er) == SubSeq(Sh(x),1,Rk(x)-er)
CellAt(x,er,i) == IF er = Rk(x) THEN x ELSE LET cs == SubSeq(Sh(x),Rk(x)-er+1,Rk(x)) c == Prod(cs) IN Arr(cs, Sub_(Rv(x),i*c,c))
RankMap(t,w,x,rm,rw,rx) ==
  IF w = NOW THEN
    LET er == EffRank(rm,Rk(x)) fr == FrameOf(x,er)
        res == Combine(fr, [i \in 1..Prod(fr) |-> Ap(t,NOW,CellAt(x,er,i-1))])
    IN IF IsBad(res) THEN res ELSE IF fr = <<>> THEN Merge(res) ELSE Merge(res)
  ELSE
    LET ew == EffRank(rw,Rk(w)) ex == EffRank(rx,Rk(x)) fw == FrameOf(w,ew) fx == FrameOf(x,ex) nw == Prod(fw) nx == Prod(fx) IN
    IF ~PrefixOK(fw,fx) THEN ERR
    ELSE LET fr == IF Len(fw) >= Len(fx) THEN fw ELSE fx
             n == Prod(fr)
             cw == IF nw = 0 THEN 1 ELSE n \div nw
             cx == IF nx = 0 THEN 1 ELSE n \div nx
             res == Combine(fr, [i \in 1..n |-> Ap(t, CellAt(w,ew,(i-1) \div cw), CellAt(x,ex,(i-1) \div cx))])
         IN IF IsBad(res) THEN res ELSE Merge(res)
Cells1(t,w,x) == RankMap(t,w,x,-1,-1,-1)

\* repeat: count term result gives how often
RepN(t,w,x,n) == IF n = 0 \/ IsBad(x) THEN x ELSE IF n > 2000 THEN NC ELSE RepN(t,w,Chk(Ap(t,w,x)),n-1)
RepV(t,w,x,c) ==
  IF IsArr(c) THEN Combine(c[2], [i \in 1..Len(c[3]) |-> RepV(t,w,x,c[3][i])])
  ELSE IF c[1] # 0 THEN (IF IsNum(c) /\ IsInteger(c) THEN NC ELSE ERR)
  ELSE IF c[2] < 0 THEN NC
  ELSE RepN(t,w,x,c[2])

\* structural Under: G is a pipeline of position-preserving functions (innermost first)
\* Put(s,x,v): x with the part that s selects replaced by v
Addr(x) == Arr(x[2], [i \in 1..Len(x[3]) |-> N(i-1)])
PutAt(x,ad,v) ==   \* ad: array of positions, v: array of the same shape
  IF Sh(v) # Sh(ad) THEN ERR
  ELSE LET a == Rv(ad) b == Rv(v) IN
    IF \E i \in 1..Len(a) : \E j \in i+1..Len(a) : a[i] = a[j] /\ b[i] # b[j] THEN ERR
    ELSE LET m == [p \in {a[i][2] : i \in 1..Len(a)} |-> b[CHOOSE i \in 1..Len(a) : a[i][2] = p]]
         IN Arr(x[2], [p \in 1..Len(x[3]) |-> IF (p-1) \in DOMAIN m THEN m[p-1] ELSE x[3][p]])
RECURSIVE PutPick(_,_,_)
PutPick(w,x,v) ==
  IF IsNum(w) \/ (IsArr(w) /\ \A i \in 1..Len(w[3]) : ~IsArr(w[3][i])) THEN
     LET p == PickPos(Rv(w),x) IN IF p < 0 \/ ~IsArr(x) THEN ERR ELSE Arr(x[2],[x[3] EXCEPT ![p+1] = v])
  ELSE NC
\* is the term a single-element pick?
IsPick(s) == (s.k = "p" /\ s.n = "pick") \/ (s.k = "m2" /\ s.n = "before" /\ s.f.k = "c" /\ s.g.k = "p" /\ s.g.n = "pick")
SimplePath(w) == IsNum(w) \/ (IsArr(w) /\ \A i \in 1..Len(w[3]) : ~IsArr(w[3][i]))
IsReorder(s) == (s.k = "p" /\ s.n \in {"rev","transp","couple"}) \/ (s.k = "m2" /\ s.n = "before" /\ s.f.k = "c" /\ s.g.k = "p" /\ s.g.n \in {"rev","transp"})
IsTakeStep(s) == s.k = "m2" /\ s.n = "before" /\ s.f.k = "c" /\ s.g.k = "p" /\ s.g.n = "take"
UnderS(steps,g,x,w) ==
  IF steps = <<>> THEN Chk(Ap(g,w,x))
  ELSE LET s == steps[1]
           y == Chk(Ap(s,NOW,x))
       IN IF IsBad(y) THEN y
          ELSE LET v == UnderS(Tail(steps),g,y,w) IN
            IF IsBad(v) THEN v
            ELSE IF s.k = "p" /\ s.n \in {"ltack","rtack"} THEN v
            ELSE IF s.k = "p" /\ s.n = "lt" THEN (IF Rk(v) = 0 /\ IsArr(v) THEN v[3][1] ELSE ERR)
            ELSE IF ~IsArr(x) THEN NC
            ELSE IF IsPick(s) THEN
               (IF s.k = "p" THEN Arr(x[2],[x[3] EXCEPT ![1] = v])
                ELSE IF SimplePath(s.f.v) THEN PutPick(s.f.v,x,v)
                ELSE \* nested pick: paths applied to positions (each path addresses one position)
                  LET ad == Pick(s.f.v, Addr(x)) IN PutAt(x,ad,v))
            ELSE IF s.k = "p" /\ s.n = "select" /\ Rk(x) = 0 THEN ERR
            ELSE LET ad == Ap(s,NOW,Addr(x)) IN IF IsBad(ad) THEN NC
                 ELSE IF IsTakeStep(s) /\ (\/ Len(Sh(ad)) # Len(x[2])
                                          \/ \E i \in 1..Len(x[2]) : Sh(ad)[i] > x[2][i]) THEN NC  \* fills are no positions
                 ELSE IF Sh(v) # Sh(ad) /\ IsReorder(s) THEN NC      \* invertible: may be undone rather than updated
                 ELSE PutAt(x,ad,v)
\* flatten a composition into its steps, innermost (rightmost) first
RECURSIVE Steps(_)
Steps(t) == IF t.k = "t2" THEN Steps(t.h) \o Steps(t.g)
            ELSE IF t.k = "m2" /\ t.n = "atop" THEN Steps(t.g) \o Steps(t.f)
            ELSE <<t>>

IsTruth(v) == v = ONE \/ v = ZERO
Ap(t,w,x) ==
  CASE t.k = "p" -> IF w = NOW THEN Prim1(t.n,x) ELSE Prim2(t.n,w,x)
    [] t.k = "c" -> t.v
    [] t.k = "y" -> NC
    [] t.k = "t2" -> LET r == Chk(Ap(t.h,w,x)) IN IF IsBad(r) THEN r ELSE Ap(t.g,NOW,r)
    [] t.k = "t3" -> LET r == Chk(Ap(t.h,w,x)) IN IF IsBad(r) THEN r
                     ELSE LET l == Chk(Ap(t.f,w,x)) IN IF IsBad(l) THEN l ELSE Ap(t.g,l,r)
    [] t.k = "m1" ->
       (CASE t.n = "swap" -> Ap(t.f, x, IF w = NOW THEN x ELSE w)
          [] t.n = "const" -> IF t.f.k = "c" THEN t.f.v ELSE NC
          [] t.n = "each" -> EachMap(t.f,w,x)
          [] t.n = "tbl" -> TableMap(t.f,w,x)
          [] t.n = "fold" -> Fold(t.f,w,x)
          [] t.n = "scan" -> Scan(t.f,w,x)
          [] t.n = "insert" -> Insert(t.f,w,x)
          [] t.n = "cells" -> Cells1(t.f,w,x)
          [] t.n = "undo" -> Undo(t.f,w,x)
          [] t.n = "back" -> BackV(t.f,w,x)
          [] OTHER -> NC)
    [] t.k = "m2" ->
       (CASE t.n = "atop" -> LET r == Chk(Ap(t.g,w,x)) IN IF IsBad(r) THEN r ELSE Ap(t.f,NOW,r)
          [] t.n = "over" -> IF w = NOW THEN LET r == Chk(Ap(t.g,NOW,x)) IN IF IsBad(r) THEN r ELSE Ap(t.f,NOW,r)
                             ELSE LET r == Chk(Ap(t.g,NOW,x)) IN IF IsBad(r) THEN r
                             ELSE LET l == Chk(Ap(t.g,NOW,w)) IN IF IsBad(l) THEN l ELSE Ap(t.f,l,r)
          [] t.n = "before" -> LET l == Chk(Ap(t.f,NOW,IF w = NOW THEN x ELSE w)) IN IF IsBad(l) THEN l ELSE Ap(t.g,l,x)
          [] t.n = "after" -> LET r == Chk(Ap(t.g,NOW,x)) IN IF IsBad(r) THEN r ELSE Ap(t.f,IF w = NOW THEN x ELSE w,r)
          [] t.n = "val" -> IF w = NOW THEN Ap(t.f,NOW,x) ELSE Ap(t.g,w,x)
          [] t.n = "catch" -> LET r == Ap(t.f,w,x) IN IF r = ERR THEN Ap(t.g,w,x) ELSE r
          [] t.n = "cond" -> LET c == Chk(Ap(t.f,w,x)) IN
               IF IsBad(c) THEN c
               ELSE IF t.g.k # "fl" THEN NC
               ELSE IF IsArr(c) \/ ~IsNum(c) THEN (IF IsArr(c) THEN NC ELSE ERR)
               ELSE LET p == Ix(c,Len(t.g.fs)) IN IF p < 0 THEN ERR ELSE Ap(t.g.fs[p+1],w,x)
          [] t.n = "repeat" -> LET c == Chk(Ap(t.g,w,x)) IN IF IsBad(c) THEN c ELSE RepV(t.f,w,x,c)
          [] t.n = "rank" -> LET c == Chk(Ap(t.g,w,x)) IN
               IF IsBad(c) THEN c
               ELSE IF Rk(c) > 1 THEN NC     \* rank operands of higher rank: no claim
               ELSE IF ~NumList(c) \/ Len(Rv(c)) = 0 \/ Len(Rv(c)) > 3 THEN ERR
               ELSE IF ~IntsOnly(c) THEN (IF \E i \in 1..Len(Rv(c)) : ~IsInteger(Rv(c)[i]) /\ ~IsInf(Rv(c)[i]) THEN ERR ELSE NC)
               ELSE LET l == Ints(c) n == Len(l)
                        rm == IF n = 3 THEN l[1] ELSE IF n = 2 THEN l[2] ELSE l[1]
                        rw == IF n = 3 THEN l[2] ELSE l[1]
                        rx == l[n]
                    IN RankMap(t.f,w,x,rm,rw,rx)
          [] t.n = "depth" -> IF t.g = [k |-> "c", v |-> ZERO] THEN Depth0(t.f,w,x) ELSE NC
          [] t.n = "under" ->
               IF w = NOW THEN UnderS(Steps(t.g),t.f,x,NOW)
               ELSE LET wt == Chk(Ap(t.g,NOW,w)) IN IF IsBad(wt) THEN wt ELSE UnderS(Steps(t.g),t.f,x,wt))

--------------------------------------------------------------------------
\* does an observed outcome agree with what the specification says?
RECURSIVE Agree(_,_)
Agree(e,o) == IF e = NC THEN TRUE
              ELSE IF e = o THEN TRUE
              ELSE e[1] = 2 /\ o[1] = 2 /\ e[2] = o[2] /\ Len(e[3]) = Len(o[3]) /\ \A i \in 1..Len(e[3]) : Agree(e[3][i],o[3][i])
=============================================================================
