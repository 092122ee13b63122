-------------------------------- MODULE Map --------------------------------
(* The mutable map of •HashMap.  A map is the sequence of its entries        *)
(* <<key, value>> in order of insertion, keys being distinct under Match     *)
(* (values are in canonical form, so matching values are equal).  A history  *)
(* is over several maps; the responses so far are part of the state, since   *)
(* values given out earlier may be read again or stored in a map.            *)
EXTENDS BQN
\* state: [m |-> sequence of maps, r |-> responses]
RECURSIVE Pos0(_,_,_)
Pos0(m,k,i) == IF i > Len(m) THEN 0 ELSE IF m[i][1] = k THEN i ELSE Pos0(m,k,i+1)
PosOf(m,k) == Pos0(m,k,1)
SetIn(m,k,v) == LET i == PosOf(m,k) IN IF i = 0 THEN Append(m,<<k,v>>) ELSE [m EXCEPT ![i] = <<k,v>>]
DelIn(m,i) == SubSeq(m,1,i-1) \o SubSeq(m,i+1,Len(m))
KeysOf(m) == List([i \in 1..Len(m) |-> m[i][1]])
ValsOf(m) == List([i \in 1..Len(m) |-> m[i][2]])
MDone == <<7,1>>       \* a namespace is given back
\* <<response, maps>>
MapNew(ms,k,v) ==
  IF ~IsArr(k) \/ ~IsArr(v) \/ Rk(k) # 1 \/ Rk(v) # 1 THEN <<ERR,Append(ms,<<>>)>>
  ELSE IF Len(k[3]) # Len(v[3]) \/ \E i,j \in 1..Len(k[3]) : i < j /\ k[3][i] = k[3][j] THEN <<ERR,Append(ms,<<>>)>>
  ELSE <<MDone, Append(ms,<<>> \o [i \in 1..Len(k[3]) |-> <<k[3][i],v[3][i]>>])>>
MapOp(ms,rs,op) ==
  LET o == op[1] IN
  IF o = "new" THEN MapNew(ms,op[2],op[3])
  ELSE IF o = "re" THEN <<rs[op[2]],ms>>
  ELSE LET n == op[2] m == ms[n] IN
    CASE o = "set" -> <<MDone,[ms EXCEPT ![n] = SetIn(m,op[3],op[4])]>>
      [] o = "setr" -> <<MDone,[ms EXCEPT ![n] = SetIn(m,op[3],rs[op[4]])]>>
      [] o = "del" -> LET i == PosOf(m,op[3]) IN IF i = 0 THEN <<ERR,ms>> ELSE <<MDone,[ms EXCEPT ![n] = DelIn(m,i)]>>
      [] o = "get" -> LET i == PosOf(m,op[3]) IN <<IF i = 0 THEN ERR ELSE m[i][2],ms>>
      [] o = "getd" -> LET i == PosOf(m,op[3]) IN <<IF i = 0 THEN op[4] ELSE m[i][2],ms>>
      [] o = "has" -> <<Bool(PosOf(m,op[3]) # 0),ms>>
      [] o = "count" -> <<N(Len(m)),ms>>
      [] o = "keys" -> <<KeysOf(m),ms>>
      [] o = "vals" -> <<ValsOf(m),ms>>
      \* set, delete, has, count, keys and values have only one form
      [] o = "bad" -> <<ERR,ms>>
Hist(h) == FoldLeft(LAMBDA st,op : LET q == MapOp(st.m,st.r,op) IN [m |-> q[2], r |-> Append(st.r,q[1])], [m |-> <<>>, r |-> <<>>], h).r
=============================================================================
