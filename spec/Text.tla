-------------------------------- MODULE Text --------------------------------
(* Characters as UTF-8 bytes, numbers as decimal text, and values as bits:   *)
(* the conversions of •ToUTF8, •FromUTF8, •ParseFloat, •Repr and •bit.       *)
EXTENDS BQN
---------------------------------------------------------------------------
(* UTF-8.  Surrogates are BQN characters and are treated like the others.    *)
EncU(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
ToUtf8(x) == IF ~IsArr(x) \/ Rk(x) # 1 THEN ERR
             ELSE IF \E i \in 1..Len(x[3]) : ~IsChr(x[3][i]) THEN ERR
             ELSE LET bs == FoldLeft(LAMBDA a,c : a \o EncU(c[2]), <<>>, x[3]) IN List([i \in 1..Len(bs) |-> Ch(bs[i])])
Cont(b) == b \in 128..191
\* the codepoint starting at byte i and the number of bytes it takes; <<-1,0>> when malformed
Dec1(b,i) ==
  LET n == Len(b) c == b[i]
      k == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE IF c < 248 THEN 4 ELSE 0
      v == CASE k = 1 -> c [] k = 2 -> (c-192)*64 + b[i+1]-128 [] k = 3 -> (c-224)*4096 + (b[i+1]-128)*64 + b[i+2]-128
             [] k = 4 -> (c-240)*262144 + (b[i+1]-128)*4096 + (b[i+2]-128)*64 + b[i+3]-128
      least == <<0,128,2048,65536>>
  IN IF k = 0 \/ i+k-1 > n THEN <<-1,0>>
     ELSE IF \E j \in i+1..i+k-1 : ~Cont(b[j]) THEN <<-1,0>>
     ELSE IF v < least[k] \/ v > 1114111 THEN <<-1,0>> ELSE <<v,k>>
RECURSIVE DecU(_,_,_)
DecU(b,i,a) == IF i > Len(b) THEN List(a)
               ELSE LET d == Dec1(b,i) IN IF d[2] = 0 THEN ERR ELSE DecU(b,i+d[2],Append(a,Ch(d[1])))
ByteOk(v) == (IsChr(v) \/ v[1] = 0) /\ v[2] \in 0..255
FromUtf8(x) ==
  IF ~IsArr(x) \/ Rk(x) # 1 THEN ERR
  ELSE IF \A i \in 1..Len(x[3]) : ByteOk(x[3][i]) THEN DecU(<<>> \o [i \in 1..Len(x[3]) |-> x[3][i][2]],1,<<>>)
  ELSE IF \E i \in 1..Len(x[3]) : ~ByteOk(x[3][i]) /\ ~(x[3][i][1] = 0 /\ x[3][i][2] < 0) THEN ERR
  ELSE NC    \* negative bytes
---------------------------------------------------------------------------
(* Decimal text                                                              *)
P5 == FoldLeft(LAMBDA a,i : Append(a, BMulDig(a[i],5,1,0)), << <<1>> >>, [i \in 1..420 |-> i])
\* compare D*10^E with M*2^F (naturals; integer exponents)
CmpDec(D,E,M,F) == LET l == IF E >= 0 THEN BMul(D,P5[E+1]) ELSE D
                       r == IF E < 0 THEN BMul(M,P5[1-E]) ELSE M
                   IN IF E >= F THEN BCmp(BShl(l,E-F),r) ELSE BCmp(l,BShl(r,F-E))
Zero7 == <<0,0,0,0,0,0>>
MINN == Zero7 \o <<16>>            \* 2^52
MAXTHR == Zero7 \o <<32>>          \* 2^53
\* is the double v (sign aside) the nearest to D*10^E, ties to even?
IsNearest(v,D,E) ==
  LET nd == BBits(D) IN
  IF D = <<>> THEN v = ZERO
  ELSE IF E > 400 THEN v = INF
  ELSE IF E < -400 THEN v = ZERO
  ELSE IF v = INF THEN CmpDec(D,E,BSub(Zero7 \o <<64>>,<<1>>),970) >= 0
  ELSE IF v = ZERO THEN CmpDec(D,E,<<1>>,-1075) <= 0
  ELSE LET d0 == Dec(v)
           \* normalise to 53 bits where possible
           k == MinI(53-BBits(d0.m), d0.e+1074)
           m == IF k > 0 THEN BShl(d0.m,k) ELSE d0.m   e == IF k > 0 THEN d0.e-k ELSE d0.e
           even == (m[1] % 2) = 0
           lo == IF m = MINN /\ e > -1074 THEN <<BSub(BShl(m,2),<<1>>),e-2>> ELSE <<BSub(BShl(m,1),<<1>>),e-1>>
           hi == <<BAdd(BShl(m,1),<<1>>),e-1>>
           cl == CmpDec(D,E,lo[1],lo[2])  ch == CmpDec(D,E,hi[1],hi[2])
       IN Finite(v) /\ (cl > 0 \/ (cl = 0 /\ even)) /\ (ch < 0 \/ (ch = 0 /\ even))
\* a decimal numeral: [ok, neg, D (natural), E, sig (number of significant digits)]
IsDig(c) == c \in 48..57
RECURSIVE SpanDig(_,_)
SpanDig(s,i) == IF i <= Len(s) /\ IsDig(s[i]) THEN SpanDig(s,i+1) ELSE i      \* first position after the digits
RECURSIVE Lead0(_)
Lead0(ds) == IF ds = <<>> \/ ds[1] # 48 THEN ds ELSE Lead0(Tail(ds))
DigVal(ds) == FoldLeft(LAMBDA a,c : LET t == BAdd(Trim(BMulDig(a,10,1,0)),BigOf(c-48)) IN t, <<>>, ds)
SmallVal(ds) == FoldLeft(LAMBDA a,c : IF a > 10000000 THEN a ELSE a*10 + c-48, 0, ds)
Numeral(s,minus,expminus,plus) ==
  LET a == IF s # <<>> /\ s[1] = minus THEN 2 ELSE 1
      i1 == SpanDig(s,a)
      dot == i1 <= Len(s) /\ s[i1] = 46
      i2 == IF dot THEN SpanDig(s,i1+1) ELSE i1
      ip == SubSeq(s,a,i1-1)  fp == IF dot THEN SubSeq(s,i1+1,i2-1) ELSE <<>>
      hasE == i2 <= Len(s) /\ s[i2] \in {69,101}
      sg == hasE /\ i2+1 <= Len(s) /\ (s[i2+1] = expminus \/ (plus /\ s[i2+1] = 43))
      e1 == IF sg THEN i2+2 ELSE i2+1
      i3 == IF hasE THEN SpanDig(s,e1) ELSE i2
      ds == Lead0(ip \o fp)
      ev == IF hasE THEN SmallVal(SubSeq(s,e1,i3-1)) ELSE 0
  IN [ok |-> Len(ip)+Len(fp) > 0 /\ i3 = Len(s)+1 /\ (hasE => i3 > e1), neg |-> a = 2,
      ds |-> ds, E |-> (IF sg /\ s[i2+1] = expminus THEN -ev ELSE ev) - Len(fp), ip |-> ip, fp |-> fp]
Codes(x) == <<>> \o [i \in 1..Len(x[3]) |-> x[3][i][2]]
\* o is the response to parsing x
ParseOk(x,o) ==
  IF ~IsArr(x) \/ Rk(x) # 1 \/ x[3] = <<>> THEN o = ERR
  ELSE IF \E i \in 1..Len(x[3]) : ~IsChr(x[3][i]) THEN o = ERR
  ELSE LET n == Numeral(Codes(x),45,45,TRUE) IN
    IF ~n.ok THEN o = ERR
    ELSE IF Len(n.ds) > 18 THEN IsNum(o)        \* further digits may be dropped
    ELSE IsNum(o) /\ IF n.neg THEN IsNearest(IF o = ZERO THEN o ELSE Neg(o),DigVal(n.ds),n.E) ELSE IsNearest(o,DigVal(n.ds),n.E)
\* o is a text for the number v: reading it as a numeral of the language gives v
ReprOk(v,o) ==
  /\ IsArr(o) /\ Rk(o) = 1 /\ \A i \in 1..Len(o[3]) : IsChr(o[3][i])
  /\ LET s == Codes(o) IN
     IF v = NAN THEN s = <<78,97,78>>
     ELSE IF v = INF THEN s = <<8734>>
     ELSE IF v = NINF THEN s = <<175,8734>>
     ELSE LET n == Numeral(s,175,175,FALSE) IN
       n.ok /\ n.ip # <<>> /\ (IF v = ZERO THEN TRUE ELSE n.neg = Signed(v)) /\ IsNearest(AbsN(v),DigVal(n.ds),n.E)
---------------------------------------------------------------------------
(* Bits.  Types are <<width, kind>>: kind "u" width 1, "i" and "c" 8 16 32,  *)
(* "f" 64.  A value becomes bytes (or one bit), least significant first.     *)
BB == [b \in 1..256 |-> <<>> \o [i \in 1..8 |-> ((b-1) \div P2[i-1]) % 2]]
Pad(b,k) == IF Len(b) >= k THEN b ELSE b \o [i \in 1..k-Len(b) |-> 0]
TwosC(b) == \* negation modulo 256^Len(b)
  LET k == Len(b) S == {i \in 1..k : b[i] # 0} IN
  IF S = {} THEN b ELSE LET f == MinS(S) IN <<>> \o [i \in 1..k |-> IF i < f THEN 0 ELSE IF i = f THEN 256-b[i] ELSE 255-b[i]]
Words(v) == IF v = ZERO THEN <<3,0,0,0,0>> ELSE IF v[1] = 0 THEN ToWords(v[2]) ELSE v
FBytes(v) == LET w == Words(v) IN <<w[5] % 256, w[5] \div 256, w[4] % 256, w[4] \div 256, w[3] % 256, w[3] \div 256, w[2] % 256, w[2] \div 256>>
IBytes(v,k) == \* <<>> when out of range
  IF ~IsInteger(v) THEN <<>> ELSE
  LET d == Dec(v) m == IF d.e >= 0 THEN BShl(d.m,d.e) ELSE BShr(d.m,-d.e)[1] IN
  IF BBits(m) > 8*k THEN <<>>
  ELSE IF d.s = 0 THEN (IF BBits(m) > 8*k-1 THEN <<>> ELSE Pad(m,k))
  ELSE LET t == TwosC(Pad(m,k)) IN IF t[k] >= 128 THEN t ELSE <<>>
\* bytes of element v under type t (for width 1: the bit); <<>> when not representable
ElBytes(v,t) ==
  IF t[2] = "c" THEN (IF IsChr(v) /\ BBits(BigOf(v[2])) <= t[1] THEN Pad(BigOf(v[2]),t[1] \div 8) ELSE <<>>)
  ELSE IF ~IsNum(v) THEN <<>>
  ELSE IF t[2] = "u" THEN (IF v = ZERO \/ v = ONE THEN <<v[2]>> ELSE <<>>)
  ELSE IF t[2] = "f" THEN (IF v = NAN THEN <<>> ELSE FBytes(v))
  ELSE IBytes(v,t[1] \div 8)
\* the bits of a sequence of elements, or <<2>> when some element is not representable
ToBits(rv,t) ==
  LET w == t[1] bs == <<>> \o [i \in 1..Len(rv) |-> ElBytes(rv[i],t)] IN
  IF \E i \in 1..Len(rv) : bs[i] = <<>> THEN <<2>>
  ELSE IF w = 1 THEN <<>> \o [i \in 1..Len(rv) |-> bs[i][1]]
  ELSE <<>> \o [i \in 1..Len(rv)*w |-> LET q == (i-1) % w IN BB[bs[(i-1) \div w + 1][q \div 8 + 1] + 1][(q % 8) + 1]]
ByteAt(bits,o) == bits[o+1]+2*bits[o+2]+4*bits[o+3]+8*bits[o+4]+16*bits[o+5]+32*bits[o+6]+64*bits[o+7]+128*bits[o+8]
BytesAt(bits,o,k) == <<>> \o [j \in 1..k |-> ByteAt(bits,o+8*(j-1))]
OfBytes(b,t) ==
  LET k == Len(b) IN
  IF t[2] = "c" THEN (LET m == Trim(b) IN IF BBits(m) > 21 THEN NC ELSE IF BToInt(m) > 1114111 THEN NC ELSE Ch(BToInt(m)))
  ELSE IF t[2] = "f" THEN
    (LET v == <<3, b[8]*256+b[7], b[6]*256+b[5], b[4]*256+b[3], b[2]*256+b[1]>> IN
     IF (v[2] % 32768) \div 16 = 2047 THEN (IF v = INF \/ v = NINF THEN v ELSE NC) ELSE LET d == Dec(v) IN Enc(d.s,d.m,d.e,FALSE))
  ELSE IF b[k] >= 128 THEN Enc(1,Trim(TwosC(b)),0,FALSE) ELSE Enc(0,Trim(b),0,FALSE)
FromBits(bits,t) == LET w == t[1] IN
  IF w = 1 THEN <<>> \o [i \in 1..Len(bits) |-> N(bits[i])]
  ELSE <<>> \o [i \in 1..Len(bits) \div w |-> OfBytes(BytesAt(bits,(i-1)*w,w \div 8),t)]
Nat_(v) == v[1] = 0 /\ v[2] >= 0
NumTy(w) == <<w, IF w = 1 THEN "u" ELSE IF w = 64 THEN "f" ELSE "i">>
HasChars(x) == Len(x[3]) > 0 /\ \A i \in 1..Len(x[3]) : IsChr(x[3][i])
BADTY == <<0,"e">>
CastTy(e,c) ==
  IF IsNum(e) THEN (IF ~Nat_(e) THEN BADTY ELSE IF e[2] \notin {1,8,16,32,64} THEN BADTY ELSE IF c THEN <<e[2],"c">> ELSE NumTy(e[2]))
  ELSE IF ~IsArr(e) \/ Rk(e) # 1 THEN BADTY ELSE IF Len(e[3]) # 2 THEN BADTY
  ELSE LET w == e[3][1] t == e[3][2] IN
    IF ~Nat_(w) \/ ~IsChr(t) THEN BADTY
    ELSE CASE t[2] = 99  -> IF w[2] \in {8,16,32} THEN <<w[2],"c">> ELSE BADTY
           [] t[2] = 105 -> IF w[2] \in {8,16,32} THEN <<w[2],"i">> ELSE BADTY
           [] t[2] = 117 -> IF w[2] = 1 THEN <<1,"u">> ELSE BADTY
           [] t[2] = 102 -> IF w[2] = 64 THEN <<64,"f">> ELSE BADTY
           [] OTHER -> BADTY
LastSet(sh,n) == [sh EXCEPT ![Len(sh)] = n]
ResArr(sh,rv) == IF \E i \in 1..Len(rv) : rv[i] = NC THEN NC ELSE Arr(sh,rv)
Cast0(f,g,x) ==
  IF ~IsArr(x) \/ Rk(x) < 1 THEN ERR ELSE
  LET lt == CastTy(f,HasChars(x)) rt == CastTy(g,FALSE) IN
  IF lt = BADTY \/ rt = BADTY THEN ERR
  ELSE LET n == lt[1]*x[2][Len(x[2])] IN
    IF (n % rt[1]) # 0 THEN ERR
    ELSE IF lt[2] = "c" /\ lt[1] \in {1,64} THEN NC
    ELSE LET b == ToBits(x[3],lt) IN IF b = <<2>> THEN NC ELSE ResArr(LastSet(x[2],n \div rt[1]),FromBits(b,rt))
IsList2(p) == IsArr(p) /\ Rk(p) = 1 /\ Len(p[3]) = 2
Cast(p,x) == IF ~IsList2(p) THEN ERR ELSE Cast0(p[3][1],p[3][2],x)
UnCast(p,x) == IF ~IsList2(p) THEN ERR ELSE Cast0(p[3][2],p[3][1],x)
\* widths given to a bitwise operation, padded to k; <<>> when invalid
IsP2(n) == n > 0 /\ \E i \in 0..30 : P2[i] = n
WidthsOf(f,k) ==
  LET s == Rv(f) IN
  IF Rk(f) > 1 \/ Len(s) < 1 \/ Len(s) > k THEN <<>>
  ELSE IF \E i \in 1..Len(s) : ~Nat_(s[i]) THEN <<>>
  ELSE IF \E i \in 1..Len(s) : ~IsP2(s[i][2]) THEN <<>>
  ELSE <<>> \o [i \in 1..k |-> s[MinI(i,Len(s))][2]]
ValTy(w,c) == IF w \notin {1,8,16,32,64} THEN BADTY ELSE IF c THEN (IF w \in {1,64} THEN <<w,"n">> ELSE <<w,"c">>) ELSE NumTy(w)
\* arithmetic on a chunk of bytes
Neg_(b) == TwosC(b)
Add_(a,b) == SubSeq(Pad(BAdd0(a,b,1,Len(a),0),Len(a)),1,Len(a))
Mul_(a,b) == SubSeq(Pad(BMul(Trim(a),Trim(b)),Len(a)),1,Len(a))
Chunks(bits,ow,F(_,_),other) == \* other: the bits of the other argument, or one chunk to use everywhere
  LET n == Len(bits) \div ow k == ow \div 8
      r == <<>> \o [i \in 1..n |-> F(BytesAt(bits,(i-1)*ow,k), BytesAt(other,IF Len(other) = ow THEN 0 ELSE (i-1)*ow,k))]
  IN <<>> \o [i \in 1..Len(bits) |-> LET q == (i-1) % ow IN BB[r[(i-1) \div ow + 1][q \div 8 + 1] + 1][(q % 8) + 1]]
ArOk(ow) == ow \in {8,16,32,64}
BitOp1(o,f,x) ==
  LET ws == WidthsOf(f,3) IN
  IF ws = <<>> \/ ~IsArr(x) THEN ERR ELSE IF Rk(x) < 1 THEN ERR ELSE
  LET ow == ws[1] rt == ValTy(ws[2],FALSE) xt == ValTy(ws[3],HasChars(x))
      s == ws[3]*x[2][Len(x[2])]
  IN IF rt = BADTY \/ xt = BADTY \/ (s % ow) # 0 \/ (s % ws[2]) # 0 \/ (o = "neg" /\ ~ArOk(ow)) THEN ERR
     ELSE IF xt[2] = "n" THEN NC
     ELSE LET b == ToBits(x[3],xt) sh == LastSet(x[2],s \div ws[2]) IN
       IF b = <<2>> THEN NC
       ELSE ResArr(sh,FromBits(IF o = "not" THEN <<>> \o [i \in 1..Len(b) |-> 1-b[i]] ELSE Chunks(b,ow,LAMBDA p,q : Neg_(p),b),rt))
AsArr(v) == IF IsArr(v) THEN v ELSE Unit(v)
BitOp2(o,f,w0,x0) ==
  LET ws == WidthsOf(f,4) w == AsArr(w0) x == AsArr(x0) wr == Rk(w) xr == Rk(x) IN
  IF ws = <<>> THEN ERR ELSE
  LET ow == ws[1]
      s == IF wr = 0 THEN ws[4] ELSE ws[4]*w[2][wr]
      t == IF xr = 0 THEN ws[3] ELSE ws[3]*x[2][xr]
      same == wr = xr /\ s = t
      extw == ~same /\ wr <= 1 /\ s = ow /\ xr >= 1
      extx == ~same /\ ~extw /\ xr <= 1 /\ t = ow /\ wr >= 1
      main == IF extx THEN w ELSE x
      mt == IF extx THEN s ELSE t
      wt == ValTy(ws[4],HasChars(w)) xt == ValTy(ws[3],HasChars(x)) rt == ValTy(ws[2],FALSE)
  IN IF wr = 0 /\ xr = 0 THEN ERR
     ELSE IF same /\ SubSeq(w[2],1,wr-1) # SubSeq(x[2],1,xr-1) THEN ERR
     ELSE IF ~same /\ ~extw /\ ~extx THEN ERR
     ELSE IF (mt % ow) # 0 \/ (mt % ws[2]) # 0 THEN ERR
     ELSE IF wt = BADTY \/ xt = BADTY \/ rt = BADTY THEN ERR
     ELSE IF o \in {"add","sub","mul"} /\ ~ArOk(ow) THEN ERR
     ELSE IF ~same /\ ow > 64 THEN ERR
     ELSE IF wt[2] = "n" \/ xt[2] = "n" THEN NC
     ELSE LET bw == ToBits(w[3],wt) bx == ToBits(x[3],xt) IN
       IF bw = <<2>> \/ bx = <<2>> THEN NC ELSE
       LET bm == IF extx THEN bw ELSE bx  bo == IF extx THEN bx ELSE bw
           AtO(b,i) == b[IF same THEN i ELSE ((i-1) % ow) + 1]
           r == CASE o = "and" -> <<>> \o [i \in 1..Len(bm) |-> bm[i]*AtO(bo,i)]
                  [] o = "or"  -> <<>> \o [i \in 1..Len(bm) |-> IF bm[i]+AtO(bo,i) > 0 THEN 1 ELSE 0]
                  [] o = "xor" -> <<>> \o [i \in 1..Len(bm) |-> (bm[i]+AtO(bo,i)) % 2]
                  [] o = "add" -> Chunks(bm,ow,LAMBDA p,q : Add_(p,q),bo)
                  [] o = "mul" -> Chunks(bm,ow,LAMBDA p,q : Mul_(p,q),bo)
                  [] o = "sub" -> IF extx THEN Chunks(bm,ow,LAMBDA p,q : Add_(p,Neg_(q)),bo) ELSE Chunks(bm,ow,LAMBDA p,q : Add_(Neg_(p),q),bo)
       IN ResArr(LastSet(main[2],mt \div ws[2]),FromBits(r,rt))
---------------------------------------------------------------------------
\* does response o answer operation op?
Eq_(e,o) == e = NC \/ e = o
Answers(op,o) ==
  LET k == op[1] IN
  CASE k = "toutf8" -> Eq_(ToUtf8(op[2]),o)
    [] k = "fromutf8" -> Eq_(FromUtf8(op[2]),o)
    [] k = "parse" -> ParseOk(op[2],o)
    [] k = "repr" -> ReprOk(op[2],o)
    [] k = "cast" -> Eq_(Cast(op[2],op[3]),o)
    [] k = "uncast" -> Eq_(UnCast(op[2],op[3]),o)
    [] k \in {"not","neg"} -> Eq_(BitOp1(k,op[2],op[3]),o)
    [] OTHER -> Eq_(BitOp2(k,op[2],op[3],op[4]),o)
Expected(op) ==
  LET k == op[1] IN
  CASE k = "toutf8" -> ToUtf8(op[2]) [] k = "fromutf8" -> FromUtf8(op[2]) [] k = "cast" -> Cast(op[2],op[3]) [] k = "uncast" -> UnCast(op[2],op[3])
    [] k \in {"parse","repr"} -> <<k>> [] k \in {"not","neg"} -> BitOp1(k,op[2],op[3]) [] OTHER -> BitOp2(k,op[2],op[3],op[4])
=============================================================================
