-------------------------------- MODULE Heap --------------------------------
(* Objects, the references between them, handles held by the program, and    *)
(* reclamation.  An object is <<kind, contents, references>>; references are *)
(* object numbers (0: none).  An object without any reference to it is gone  *)
(* at once, except namespaces and maps, whose parts refer to each other:       *)
(* those, like any cycle, go with the next collection once unreachable.      *)
(* State: [o: objects, h: handles (0: dropped), live: objects present]       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Elems(q) == {q[i] : i \in 1..Len(q)}
\* unreachable from handles: may be gone at any time; must be after a collection
RECURSIVE Close(_,_)
Close(o,s) == LET n == s \cup UNION {Elems(o[i][3]) \ {0} : i \in s} IN IF n = s THEN s ELSE Close(o,n)
Reach(st) == Close(st.o, Elems(st.h) \ {0})
\* what counting references alone reclaims
Stays(st,i) == st.o[i][1] \in {"ns","map"} \/ i \in Elems(st.h) \/ \E j \in st.live : i \in Elems(st.o[j][3])
RECURSIVE Sweep(_)
Sweep(st) == LET k == {i \in st.live : Stays(st,i)} IN IF k = st.live THEN st ELSE Sweep([st EXCEPT !.live = k])
Collect(st) == [st EXCEPT !.live = Reach(st)]
Add(st,kind,c,refs) == [o |-> Append(st.o,<<kind,c,refs>>), h |-> Append(st.h,Len(st.o)+1), live |-> st.live \cup {Len(st.o)+1}]
Put(st,i,f,v) == Sweep([st EXCEPT !.o[i][3][f] = v])
Drop(st,i) == Sweep([st EXCEPT !.h[i] = 0])
RECURSIVE Walk(_,_,_)
Walk(o,i,p) == IF p = <<>> THEN i ELSE Walk(o,o[i][3][p[1]],SubSeq(p,2,Len(p)))
Obj(st,n) == st.h[n]
\* what a value reads as: leaves by length and content, lists element by element, anything else opaque
LenOf == <<5,3,100,40,700,4000>>
RECURSIVE Reading(_,_,_)
Reading(o,i,d) == LET b == o[i] IN
  IF b[1] = "leaf" THEN <<0,LenOf[b[2][1]+1]*1000+b[2][2]>>
  ELSE IF b[1] \notin {"list","mat"} THEN <<7,1>>
  ELSE IF d > 3 THEN <<0,1>>
  ELSE <<2,IF b[1] = "mat" THEN <<1,2>> ELSE <<Len(b[3])>>,<<>> \o [k \in 1..Len(b[3]) |-> Reading(o,b[3][k],d+1)]>>
\* derived functions and others: trains by the operand that holds the reference, closures, modified functions, native functions
Held == <<"const","bind","forkfh","forkg","atopg","atoph","after","mod1","mod2","clos","cb","mat">>
HeldIx(k) == CHOOSE i \in 1..Len(Held) : Held[i] = k
\* the size of an object, given the sizes measured for the kinds: leaves 1-6, lists of 1-4 7-10, namespace 11, then those of Held
SizeIx(b) == CASE b[1] = "leaf" -> b[2][1]+1 [] b[1] = "list" -> 6+Len(b[3]) [] b[1] = "ns" -> 11 [] OTHER -> 11+HeldIx(b[1])
NSize == 11+Len(Held)
Total(z,o,s) == LET q == SetToSeq(s) IN FoldLeft(LAMBDA a,i : a+z[SizeIx(o[i])][1], 0, q)
Maps(o,s) == \E i \in s : o[i][1] = "map"
H0 == [o |-> <<>>, h |-> <<>>, live |-> {}]
\* the state after an operation
HOp(st,op) ==
  LET k == op[1] IN
  CASE k = "leaf" -> Add(st,"leaf",<<op[2],op[3]>>,<<>>)
    [] k \in {"list","map"} -> Add(st,k,<<>>,<<>> \o [i \in 1..Len(op[2]) |-> Obj(st,op[2][i])])
    [] k = "ns" -> Add(st,"ns",<<>>,<<Obj(st,op[2]),Obj(st,op[3])>>)
    [] k = "held" -> Add(st,op[2],<<>>,<<>> \o [i \in 1..Len(op[3]) |-> Obj(st,op[3][i])])
    [] k = "set" -> Put(st,Obj(st,op[2]),op[3],Obj(st,op[4]))
    [] k = "mset" -> Put(st,Obj(st,op[2]),op[3],Obj(st,op[4]))
    [] k = "mdel" -> Put(st,Obj(st,op[2]),op[3],0)
    [] k = "read" -> [st EXCEPT !.h = Append(@,Walk(st.o,Obj(st,op[2]),op[3]))]
    [] k \in {"throw","thrb"} -> [st EXCEPT !.h = Append(@,Obj(st,op[2]))]
    [] k = "drop" -> Drop(st,op[2])
    [] k = "gc" -> Collect(st)
    [] k \in {"used","cal"} -> st
\* whether the response agrees with the state after the operation; z: sizes measured at the start
RespFits(st,op,r,z) ==
  LET k == op[1] IN
  CASE k = "cal" -> Len(r) = NSize /\ \A i \in 1..NSize : r[i][1] > 0 /\ r[i][2] = 0
    [] k \in {"read","throw","thrb"} -> r = Reading(st.o,st.h[Len(st.h)],0)
    [] k = "gc" -> Maps(st.o,st.live) \/ r[2] = Total(z,st.o,st.live)
    [] k = "used" -> Maps(st.o,st.live) \/ (r[2] >= Total(z,st.o,Reach(st)) /\ r[2] <= Total(z,st.o,st.live))
    [] OTHER -> TRUE
=============================================================================
