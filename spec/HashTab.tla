------------------------------ MODULE HashTab ------------------------------
(* The design of the table behind •HashMap: entries <<hash, index>> in an     *)
(* array ordered by hash with linear probing from the home cell, the index    *)
(* being into lists of keys and values that keep holes after deletion until   *)
(* they are compacted.  TLC checks, for every assignment of hashes to keys    *)
(* and every history of operations, that it implements the map of Map.tla:    *)
(* a sequence of entries with distinct keys in order of insertion.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS KEYS, VALS, HMAX, EXTRA, SLACK, MAXLEVEL
EMPTY == 1000                \* greater than any hash
HOLE == 0
VARIABLES hash,             \* key -> hash, fixed
          lvl,              \* number of doublings
          tab, ks, vs, pop, \* the implementation
          abs               \* the map it stands for
vars == <<hash,lvl,tab,ks,vs,pop,abs>>
P2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE 8
Shift == [h \in 0..HMAX |-> h \div P2(MAXLEVEL-lvl)]
Home(h,l) == h \div P2(MAXLEVEL-l)
Homes(l) == Home(HMAX,l)+1
Sz(l) == Homes(l)+EXTRA
NoTab(l) == [j \in 0..Sz(l)-1 |-> <<EMPTY,0>>]
\* first cell from j whose hash is not below h, then the run of equal hashes
RECURSIVE Skip(_,_,_), Run(_,_,_,_), Push(_,_,_), Pull(_,_,_)
Skip(t,h,j) == IF t[j][1] < h THEN Skip(t,h,j+1) ELSE j
\* position of the key, or the cell where it belongs, as <<found, j>>
Run(t,h,k,j) == IF t[j][1] # h THEN <<FALSE,j>> ELSE IF ks[t[j][2]] = k THEN <<TRUE,j>> ELSE Run(t,h,k,j+1)
Find(t,l,k) == Run(t,hash[k],k,Skip(t,hash[k],Home(hash[k],l)))
\* insert e at j, moving the rest up to the next empty cell; <<table, last cell written>>
Push(t,j,e) == IF t[j][1] = EMPTY THEN <<[t EXCEPT ![j] = e], j>> ELSE Push([t EXCEPT ![j] = e], j+1, t[j])
\* remove the entry at j, moving back those that are not at home
Pull(t,l,j) == LET u == t[j+1] IN
  IF u[1] = EMPTY \/ Home(u[1],l) = j+1 THEN [t EXCEPT ![j] = <<EMPTY,0>>] ELSE Pull([t EXCEPT ![j] = u],l,j+1)
\* entries of a table in order, placed again for level l
RECURSIVE Place(_,_,_,_,_)
Place(old,i,n,t,j) == IF i = n THEN t
  ELSE IF old[i][1] = EMPTY THEN Place(old,i+1,n,t,j)
  ELSE LET h == Home(old[i][1],lvl+1) p == IF j > h THEN j ELSE h IN Place(old,i+1,n,[t EXCEPT ![p] = old[i]],p+1)
Compact(t,k,v) ==
  LET live == SelectSeq([i \in 1..Len(k) |-> i], LAMBDA i : k[i] # HOLE)
      new(i) == Cardinality({j \in 1..Len(live) : live[j] <= i})
  IN [t |-> [j \in DOMAIN t |-> IF t[j][1] = EMPTY THEN t[j] ELSE <<t[j][1], new(t[j][2])>>],
      k |-> [j \in 1..Len(live) |-> k[live[j]]], v |-> [j \in 1..Len(live) |-> v[live[j]]]]
\* the abstract map
AIdx(k) == {i \in 1..Len(abs) : abs[i][1] = k}
Init == /\ hash \in [KEYS -> 0..HMAX] /\ lvl = 0 /\ tab = NoTab(0) /\ ks = <<>> /\ vs = <<>> /\ pop = 0 /\ abs = <<>>
Set(k,v) ==
  LET f == Find(tab,lvl,k) IN
  IF f[1] THEN /\ vs' = [vs EXCEPT ![tab[f[2]][2]] = v] /\ UNCHANGED <<hash,lvl,tab,ks,pop>>
               /\ abs' = [i \in 1..Len(abs) |-> IF abs[i][1] = k THEN <<k,v>> ELSE abs[i]]
  ELSE LET p == Push(tab,f[2],<<hash[k],Len(ks)+1>>) full == p[2] = Sz(lvl)-1 IN
       /\ ks' = Append(ks,k) /\ vs' = Append(vs,v) /\ pop' = pop+1 /\ abs' = Append(abs,<<k,v>>)
       /\ IF full /\ lvl < MAXLEVEL THEN lvl' = lvl+1 /\ tab' = Place(p[1],0,Sz(lvl),NoTab(lvl+1),0) ELSE lvl' = lvl /\ tab' = p[1]
       /\ UNCHANGED hash
Del(k) ==
  LET f == Find(tab,lvl,k) IN
  /\ f[1]
  /\ LET i == tab[f[2]][2] t == Pull(tab,lvl,f[2]) k2 == [ks EXCEPT ![i] = HOLE] v2 == [vs EXCEPT ![i] = HOLE] p == pop-1 c == Compact(t,k2,v2)
     IN /\ pop' = p
        /\ IF p = 0 \/ 2*(p+SLACK) < Len(ks) THEN tab' = c.t /\ ks' = c.k /\ vs' = c.v ELSE tab' = t /\ ks' = k2 /\ vs' = v2
  /\ abs' = SelectSeq(abs, LAMBDA e : e[1] # k)
  /\ UNCHANGED <<hash,lvl>>
\* keys and values: compacted first when there are holes
List == /\ pop # Len(ks) /\ LET c == Compact(tab,ks,vs) IN tab' = c.t /\ ks' = c.k /\ vs' = c.v
        /\ UNCHANGED <<hash,lvl,pop,abs>>
Next == (\E k \in KEYS, v \in VALS : Set(k,v)) \/ (\E k \in KEYS : Del(k)) \/ List
--------------------------------------------------------------------------
Live == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : ks[i] # HOLE)
\* what keys and values would give is the abstract map
Refines == abs = [j \in 1..Len(Live) |-> <<ks[Live[j]], vs[Live[j]]>>] /\ pop = Len(abs)
\* every key is found exactly when present, at its entry
Lookup == \A k \in KEYS : LET f == Find(tab,lvl,k) IN (f[1] <=> AIdx(k) # {}) /\ (f[1] => vs[tab[f[2]][2]] = abs[CHOOSE i \in AIdx(k) : TRUE][2])
Sorted == \A i,j \in DOMAIN tab : i < j /\ tab[j][1] # EMPTY /\ tab[i][1] # EMPTY => tab[i][1] <= tab[j][1]
NoGap == \A j \in DOMAIN tab : tab[j][1] # EMPTY => Home(tab[j][1],lvl) <= j /\ \A i \in Home(tab[j][1],lvl)..j : tab[i][1] # EMPTY
Last == tab[Sz(lvl)-1][1] = EMPTY \/ lvl = MAXLEVEL
Inv == Refines /\ Lookup /\ Sorted /\ NoGap /\ Last
=============================================================================
