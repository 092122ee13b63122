-------------------------------- MODULE Num --------------------------------
(* BQN numbers are IEEE binary64.  TLC integers are 32-bit, so a number is   *)
(* represented canonically as                                                *)
(*    <<0, n>>                  an integer with |n| <= SMALLMAX              *)
(*    <<3, w3, w2, w1, w0>>     any other double, by its four 16-bit words,  *)
(*                              most significant first (one NaN only)        *)
(* Negative zero is identified with zero (BQN's Match identifies them).      *)
(* + - x and comparison, floor, division and square root are defined on all  *)
(* finite doubles with exact round-to-nearest-even, on top of arbitrary      *)
(* precision naturals (little-endian sequences of bytes).                    *)
EXTENDS Integers, Sequences, TLC

SMALLMAX == 1073741823
INF  == <<3, 32752, 0, 0, 0>>
NINF == <<3, 65520, 0, 0, 0>>
NAN  == <<3, 32760, 0, 0, 0>>
ZERO == <<0, 0>>
ONE  == <<0, 1>>

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
P2 == [k \in 0..30 |-> Pow2(k)]

Abs(n) == IF n < 0 THEN -n ELSE n
MinI(a,b) == IF a < b THEN a ELSE b
MaxI(a,b) == IF a > b THEN a ELSE b

--------------------------------------------------------------------------
(* Arbitrary-precision naturals: little-endian base 256, no trailing zeros. *)
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s,1,Len(s)-1)) ELSE s

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BigOf(n \div 256)

Dig(s,i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE BAdd0(_,_,_,_,_)
BAdd0(a,b,i,n,c) == IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == Dig(a,i)+Dig(b,i)+c IN <<t % 256>> \o BAdd0(a,b,i+1,n,t \div 256)
BAdd(a,b) == BAdd0(a,b,1,MaxI(Len(a),Len(b)),0)

RECURSIVE BSub0(_,_,_,_)      \* requires a >= b
BSub0(a,b,i,c) == IF i > Len(a) THEN <<>>
                  ELSE LET t == a[i]-Dig(b,i)-c IN IF t < 0 THEN <<t+256>> \o BSub0(a,b,i+1,1) ELSE <<t>> \o BSub0(a,b,i+1,0)
BSub(a,b) == Trim(BSub0(a,b,1,0))

RECURSIVE BCmp0(_,_,_)
BCmp0(a,b,i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmp0(a,b,i-1)
BCmp(a,b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmp0(a,b,Len(a))

RECURSIVE BMulDig(_,_,_,_)
BMulDig(a,d,i,c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o BigOf(c \div 256))
                    ELSE LET t == a[i]*d+c IN <<t % 256>> \o BMulDig(a,d,i+1,t \div 256)
RECURSIVE BMul(_,_)
BMul(a,b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE LET h == Trim(BMulDig(a,b[1],1,0))
                      t == BMul(a,Trim(Tail(b)))   \* Trim keeps canonical form; b is canonical so Tail(b) is too
                  IN BAdd(h, IF t = <<>> THEN <<>> ELSE <<0>> \o t)

Zeros(n) == [i \in 1..n |-> 0]
BShl(a,k) == IF a = <<>> THEN a ELSE Zeros(k \div 8) \o Trim(BMulDig(a,P2[k % 8],1,0))

RECURSIVE BDivDig0(_,_,_,_)   \* most significant first; returns <<quotient digits (little-endian), remainder>>
BDivDig0(a,d,i,r) == IF i = 0 THEN <<<<>>, r>>
                     ELSE LET t == r*256+a[i]  q == BDivDig0(a,d,i-1,t % d) IN <<Append(q[1], t \div d), q[2]>>
BDivDig(a,d) == LET q == BDivDig0(a,d,Len(a),0) IN <<Trim(q[1]), q[2]>>

AnyNZ(a,n) == \E i \in 1..MinI(n,Len(a)) : a[i] # 0
\* shift right by k; returns <<quotient, sticky>> where sticky says whether nonzero bits were lost
BShr(a,k) == LET b == k \div 8
                 s == AnyNZ(a,b)
             IN IF b >= Len(a) THEN <<<<>>, s>>
                ELSE LET q == BDivDig(SubSeq(a,b+1,Len(a)), P2[k % 8]) IN <<q[1], s \/ q[2] # 0>>

RECURSIVE BitLenI(_)
BitLenI(n) == IF n = 0 THEN 0 ELSE 1 + BitLenI(n \div 2)
BBits(a) == IF a = <<>> THEN 0 ELSE 8*(Len(a)-1) + BitLenI(a[Len(a)])

RECURSIVE BToInt(_)           \* only for values < 2^31
BToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256*BToInt(Tail(a))

--------------------------------------------------------------------------
(* Doubles *)
IsSmall(x) == x[1] = 0
IsNaN(x)   == x = NAN
IsInf(x)   == x = INF \/ x = NINF
Finite(x)  == ~IsNaN(x) /\ ~IsInf(x)

\* finite number -> [s |-> 0/1 sign, m |-> natural, e |-> exponent]: value = (-1)^s * m * 2^e
Dec(x) == IF x[1] = 0 THEN [s |-> IF x[2] < 0 THEN 1 ELSE 0, m |-> BigOf(Abs(x[2])), e |-> 0]
          ELSE LET s  == x[2] \div 32768
                   ex == (x[2] % 32768) \div 16
                   fr == <<x[5] % 256, x[5] \div 256, x[4] % 256, x[4] \div 256, x[3] % 256, x[3] \div 256, x[2] % 16>>
               IN IF ex = 0 THEN [s |-> s, m |-> Trim(fr), e |-> -1074]
                  ELSE [s |-> s, m |-> [fr EXCEPT ![7] = fr[7]+16], e |-> ex-1075]

\* round (-1)^s * (m + sticky) * 2^e to the nearest double, ties to even
Enc(s, m, e, sticky) ==
  IF m = <<>> THEN ZERO     \* callers guarantee no significant sticky-only values
  ELSE
  LET n  == BBits(m)
      sh == MaxI(n - 53, -1074 - e)          \* bits to drop (may be negative)
      q  == IF sh > 0 THEN BShr(m, sh-1) ELSE <<m, FALSE>>        \* keep one extra bit
      st == q[2] \/ sticky
      rb == sh > 0 /\ Dig(q[1],1) % 2 = 1
      h  == IF sh > 0 THEN BDivDig(q[1],2)[1] ELSE m
      up == rb /\ (st \/ Dig(h,1) % 2 = 1)
      r  == IF up THEN BAdd(h,<<1>>) ELSE h
      re == IF sh > 0 THEN e+sh ELSE e
      nb == BBits(r)
  IN
  IF r = <<>> THEN ZERO
  ELSE IF re <= 0 /\ re > -60 /\ nb+re <= 30 /\ nb <= 54 /\ ~BShr(r,-re)[2]
       THEN LET v == BToInt(BShr(r,-re)[1]) IN <<0, IF s = 1 THEN -v ELSE v>>
  ELSE IF re > 0 /\ nb+re <= 30 THEN LET v == BToInt(BShl(r,re)) IN <<0, IF s = 1 THEN -v ELSE v>>
  ELSE
  LET k  == 53 - nb                     \* normalise to 53 bits if possible
      kk == IF re - k < -1074 THEN re + 1074 ELSE k
      g  == IF kk > 0 THEN BShl(r,kk) ELSE IF kk < 0 THEN BShr(r,-kk)[1] ELSE r
      ge == re - kk
      sub == BBits(g) < 53
      bex == IF sub THEN 0 ELSE ge + 1075
  IN IF bex >= 2047 THEN (IF s = 1 THEN NINF ELSE INF)
     ELSE <<3, s*32768 + bex*16 + (Dig(g,7) % 16), Dig(g,6)*256+Dig(g,5), Dig(g,4)*256+Dig(g,3), Dig(g,2)*256+Dig(g,1)>>

SInt(n) == IF Abs(n) <= SMALLMAX THEN <<0, n>> ELSE Enc(IF n < 0 THEN 1 ELSE 0, BigOf(Abs(n)), 0, FALSE)

Neg(x) == IF x[1] = 0 THEN <<0, -x[2]>>
          ELSE IF x = NAN THEN x
          ELSE <<3, (x[2] + 32768) % 65536, x[3], x[4], x[5]>>
Signed(x) == IF x[1] = 0 THEN x[2] < 0 ELSE x[2] >= 32768

\* exact sum of decoded values, smaller exponent wins; far-apart operands are handled by a sticky tail
AddDec(a,b) ==
  LET hi == IF a.e >= b.e THEN a ELSE b
      lo == IF a.e >= b.e THEN b ELSE a
      d  == hi.e - lo.e
  IN IF hi.m = <<>> THEN Enc(lo.s, lo.m, lo.e, FALSE)
     ELSE IF lo.m = <<>> THEN Enc(hi.s, hi.m, hi.e, FALSE)
     ELSE IF d > 200 THEN
       LET m4 == BShl(hi.m, 64)              \* room below; lo is a sticky fraction of the last place
       IN IF hi.s = lo.s THEN Enc(hi.s, m4, hi.e-64, TRUE) ELSE Enc(hi.s, BSub(m4,<<1>>), hi.e-64, TRUE)
     ELSE
       LET hm == BShl(hi.m, d)
       IN IF hi.s = lo.s THEN Enc(hi.s, BAdd(hm,lo.m), lo.e, FALSE)
          ELSE LET c == BCmp(hm,lo.m)
               IN IF c = 0 THEN ZERO ELSE IF c > 0 THEN Enc(hi.s, BSub(hm,lo.m), lo.e, FALSE) ELSE Enc(lo.s, BSub(lo.m,hm), lo.e, FALSE)

Add(x,y) ==
  IF x[1] = 0 /\ y[1] = 0 THEN SInt(x[2]+y[2])
  ELSE IF x = NAN \/ y = NAN THEN NAN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x # y THEN NAN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE AddDec(Dec(x),Dec(y))
Sub(x,y) == IF x[1] = 0 /\ y[1] = 0 THEN SInt(x[2]-y[2]) ELSE Add(x, Neg(y))

Mul(x,y) ==
  IF x[1] = 0 /\ y[1] = 0 /\ Abs(x[2]) < 32768 /\ Abs(y[2]) < 32768 THEN SInt(x[2]*y[2])
  ELSE IF x = NAN \/ y = NAN THEN NAN
  ELSE IF IsInf(x) \/ IsInf(y) THEN
         (IF x = ZERO \/ y = ZERO THEN NAN ELSE IF Signed(x) = Signed(y) THEN INF ELSE NINF)
  ELSE LET a == Dec(x) b == Dec(y) IN Enc((a.s+b.s) % 2, BMul(a.m,b.m), a.e+b.e, FALSE)

\* long division, one quotient bit at a time: <<q, r>> with num = q*den + r
RECURSIVE BDiv0(_,_,_,_,_)
BDiv0(num,den,i,q,r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET bit == (Dig(num, i \div 8 + 1) \div P2[i % 8]) % 2
           r2  == LET t == BShl(r,1) IN IF bit = 1 THEN BAdd(t,<<1>>) ELSE t
       IN IF BCmp(r2,den) >= 0 THEN BDiv0(num,den,i-1,BAdd(BShl(q,1),<<1>>),BSub(r2,den))
          ELSE BDiv0(num,den,i-1,BShl(q,1),r2)
BDiv(num,den) == BDiv0(num,den,BBits(num)-1,<<>>,<<>>)

Div(x,y) ==
  IF x = NAN \/ y = NAN THEN NAN
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN NAN ELSE IF Signed(x) = Signed(y) THEN INF ELSE NINF)
  ELSE IF IsInf(y) THEN ZERO
  ELSE IF y = ZERO THEN (IF x = ZERO THEN NAN ELSE IF Signed(x) THEN NINF ELSE INF)
  ELSE IF x[1] = 0 /\ y[1] = 0 /\ (Abs(x[2]) % Abs(y[2])) = 0 THEN
         <<0, IF (x[2] < 0) = (y[2] < 0) THEN Abs(x[2]) \div Abs(y[2]) ELSE -(Abs(x[2]) \div Abs(y[2]))>>
  ELSE LET a == Dec(x)  b == Dec(y)
           k == MaxI(0, 56 + BBits(b.m) - BBits(a.m))
           q == BDiv(BShl(a.m,k), b.m)
       IN Enc((a.s+b.s) % 2, BAdd(BShl(q[1],1), IF q[2] = <<>> THEN <<>> ELSE <<1>>), a.e - b.e - k - 1, FALSE)

\* integer square root of a natural, bit by bit
RECURSIVE BSqrt0(_,_,_)
BSqrt0(n, r, i) == IF i < 0 THEN r
                   ELSE LET t == BAdd(r, BShl(<<1>>, i)) IN IF BCmp(BMul(t,t), n) <= 0 THEN BSqrt0(n,t,i-1) ELSE BSqrt0(n,r,i-1)
BSqrt(n) == BSqrt0(n, <<>>, (BBits(n)+1) \div 2)
Sqrt(x) ==
  IF x = NAN \/ x = ZERO \/ x = INF THEN x
  ELSE IF Signed(x) THEN NAN
  ELSE LET a == Dec(x)
           k0 == MaxI(0, 112 - BBits(a.m))
           k  == IF (a.e - k0) % 2 = 0 THEN k0 ELSE k0+1
           n  == BShl(a.m, k)
           r  == BSqrt(n)
       IN Enc(0, BAdd(BShl(r,1), IF BMul(r,r) = n THEN <<>> ELSE <<1>>), ((a.e - k) \div 2) - 1, FALSE)

\* comparison of non-NaN numbers: -1, 0, 1
CmpMag(x,y) == IF x[2] % 32768 # y[2] % 32768 THEN (IF x[2] % 32768 < y[2] % 32768 THEN -1 ELSE 1)
               ELSE IF x[3] # y[3] THEN (IF x[3] < y[3] THEN -1 ELSE 1)
               ELSE IF x[4] # y[4] THEN (IF x[4] < y[4] THEN -1 ELSE 1)
               ELSE IF x[5] # y[5] THEN (IF x[5] < y[5] THEN -1 ELSE 1) ELSE 0
ToWords(n) == \* small nonzero integer -> its double's words
  LET m == BigOf(Abs(n)) nb == BBits(m) g == BShl(m, 53-nb)
  IN <<3, (IF n < 0 THEN 32768 ELSE 0) + (nb - 53 + 1075)*16 + (Dig(g,7) % 16), Dig(g,6)*256+Dig(g,5), Dig(g,4)*256+Dig(g,3), Dig(g,2)*256+Dig(g,1)>>
Cmp(x,y) ==
  IF x[1] = 0 /\ y[1] = 0 THEN (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
  ELSE IF Signed(x) # Signed(y) THEN (IF Signed(x) THEN -1 ELSE 1)
  ELSE IF x = ZERO THEN -1 ELSE IF y = ZERO THEN 1      \* same sign class (non-negative), other is positive
  ELSE LET c == CmpMag(IF x[1]=0 THEN ToWords(x[2]) ELSE x, IF y[1]=0 THEN ToWords(y[2]) ELSE y)
       IN IF Signed(x) THEN -c ELSE c

NumLt(x,y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Cmp(x,y) < 0
NumLe(x,y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Cmp(x,y) <= 0
NumEq(x,y) == ~IsNaN(x) /\ ~IsNaN(y) /\ x = y

AbsN(x) == IF x = NAN THEN x ELSE IF Signed(x) THEN Neg(x) ELSE x
\* floor of a finite or infinite number
Floor(x) ==
  IF x[1] = 0 \/ ~Finite(x) THEN x
  ELSE LET a == Dec(x) IN
       IF a.e >= 0 THEN x
       ELSE LET q == BShr(a.m, -a.e)
                m == IF a.s = 1 /\ q[2] THEN BAdd(q[1],<<1>>) ELSE q[1]
            IN Enc(a.s, m, 0, FALSE)
Ceil(x) == Neg(Floor(Neg(x)))
IsInteger(x) == Finite(x) /\ Floor(x) = x
\* exact modulus for finite x and finite nonzero w, sign of w
Mod(w,x) ==
  IF w = NAN \/ x = NAN THEN NAN
  ELSE IF w[1] = 0 /\ x[1] = 0 /\ w[2] # 0
    THEN (IF w[2] > 0 THEN <<0, x[2] % w[2]>> ELSE <<0, -((-x[2]) % (-w[2]))>>)
  ELSE IF w = ZERO \/ ~Finite(w) \/ ~Finite(x) THEN <<8>>       \* no claim
  ELSE LET a == Dec(x)  b == Dec(w)
           e == MinI(a.e,b.e)
       IN IF MaxI(a.e,b.e) - e > 200 THEN <<8>>
          ELSE LET am == BShl(a.m, a.e-e)  bm == BShl(b.m, b.e-e)
                   r  == BDiv(am,bm)[2]
               IN IF r = <<>> THEN ZERO
                  ELSE IF a.s = b.s THEN Enc(b.s, r, e, FALSE)
                  ELSE LET t == BSub(bm,r) IN IF BBits(t) > 53 THEN <<8>> ELSE Enc(b.s, t, e, FALSE)

\* integer power by repeated exact multiplication, only claimed while the result is an exact integer below 2^53
RECURSIVE PowN(_,_)
PowN(x,n) == IF n = 0 THEN ONE ELSE Mul(x, PowN(x,n-1))
Exact53(x) == x[1] = 0 \/ (Finite(x) /\ IsInteger(x) /\ NumLt(AbsN(x), <<3, 17216, 0, 0, 0>>)) \* |x| < 2^53
=============================================================================
