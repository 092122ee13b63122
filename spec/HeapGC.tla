------------------------------- MODULE HeapGC -------------------------------
(* The collector as designed, over every history of a small heap.  Reference *)
(* counts are kept exactly; a collection away from the top level does not    *)
(* know the roots: it subtracts the references the objects hold to each      *)
(* other from the counts, takes whatever is left with a count as a root,     *)
(* marks from there, restores the counts and frees the rest.  Checked: it    *)
(* reclaims exactly the unreachable objects, and a count is never wrong.     *)
(* Handles that an error abandoned are counted in rc but refer to nothing    *)
(* that will ever be used: those only a top-level collection reclaims.       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, HMAX, LEAKS
Objs == 1..N
VARIABLES live, refs, hnd, lost, rc, mode
vars == <<live, refs, hnd, lost, rc, mode>>
\* refs[i][j]: the number of references object i holds to j (0..2); hnd[i]: handles to i; lost[i]: abandoned handles to i
Z == [i \in Objs |-> 0]
Sum(f,S) == LET RECURSIVE sm(_) sm(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x]+sm(s \ {x}) IN sm(S)
RcOf(l,r,h,o) == [i \in Objs |-> IF i \in l THEN h[i]+o[i]+Sum([j \in Objs |-> r[j][i]],l) ELSE 0]
Succ(r,S) == UNION {{j \in Objs : r[i][j] > 0} : i \in S}
RECURSIVE Mark(_,_)
Mark(r,S) == LET n == S \cup Succ(r,S) IN IF n = S THEN S ELSE Mark(r,n)
Reach == Mark(refs,{i \in live : hnd[i] > 0})
ReachLost == Mark(refs,{i \in live : hnd[i]+lost[i] > 0})
\* a reference to i is given up: its count falls, and at zero it goes and gives up its own
RECURSIVE Dec(_,_)
Dec(st,i) == LET c == st.rc[i]-1 s1 == [st EXCEPT !.rc[i] = c] IN
  IF c > 0 THEN s1 ELSE LET s2 == [s1 EXCEPT !.live = @ \ {i}, !.refs[i] = Z] r == st.refs[i]
    RECURSIVE go(_,_) go(s,js) == IF js = {} THEN s ELSE LET j == CHOOSE j \in js : TRUE n == IF r[j] = 0 THEN s ELSE IF r[j] = 1 THEN Dec(s,j) ELSE Dec(Dec(s,j),j) IN go(n,js \ {j}) IN go(s2,Objs)
St == [live |-> live, refs |-> refs, rc |-> rc]
Take(s) == live' = s.live /\ refs' = s.refs /\ rc' = s.rc
Init == live = {} /\ refs = [i \in Objs |-> Z] /\ hnd = Z /\ lost = Z /\ rc = Z /\ mode = "run"
New == \E i \in Objs \ live : live' = live \cup {i} /\ hnd' = [hnd EXCEPT ![i] = 1] /\ rc' = [rc EXCEPT ![i] = 1] /\ UNCHANGED <<refs,lost>>
Held == {i \in live : hnd[i] > 0}
Copy == \E i \in Held : hnd[i] < HMAX /\ hnd' = [hnd EXCEPT ![i] = @+1] /\ rc' = [rc EXCEPT ![i] = @+1] /\ UNCHANGED <<live,refs,lost>>
Link == \E i,j \in Held : refs[i][j] < 2 /\ refs' = [refs EXCEPT ![i][j] = @+1] /\ rc' = [rc EXCEPT ![j] = @+1] /\ UNCHANGED <<live,hnd,lost>>
Unlink == \E i \in Held, j \in Objs : refs[i][j] > 0 /\ Take(Dec([St EXCEPT !.refs[i][j] = @-1],j)) /\ UNCHANGED <<hnd,lost>>
Read == \E i \in Held, j \in Objs : refs[i][j] > 0 /\ hnd[j] < HMAX /\ hnd' = [hnd EXCEPT ![j] = @+1] /\ rc' = [rc EXCEPT ![j] = @+1] /\ UNCHANGED <<live,refs,lost>>
DropH == \E i \in Held : hnd' = [hnd EXCEPT ![i] = @-1] /\ Take(Dec(St,i)) /\ UNCHANGED lost
Abandon == \E i \in Held : Sum(lost,Objs) < LEAKS /\ hnd' = [hnd EXCEPT ![i] = @-1] /\ lost' = [lost EXCEPT ![i] = @+1] /\ UNCHANGED <<live,refs,rc>>
\* the collector's steps in one: counts less inner references, marking from what has a count left
Left == [i \in Objs |-> IF i \in live THEN rc[i]-Sum([j \in Objs |-> refs[j][i]],live) ELSE 0]
Gc == LET k == Mark(refs,{i \in live : Left[i] > 0}) IN
  /\ live' = k /\ refs' = [i \in Objs |-> IF i \in k THEN refs[i] ELSE Z]
  /\ rc' = [i \in Objs |-> IF i \in k THEN rc[i]-Sum([j \in Objs |-> refs[j][i]],live \ k) ELSE 0] /\ UNCHANGED <<hnd,lost>>
\* at the top level the roots are known
TopGc == LET k == Reach IN
  /\ live' = k /\ refs' = [i \in Objs |-> IF i \in k THEN refs[i] ELSE Z] /\ lost' = [i \in Objs |-> IF i \in k THEN lost[i] ELSE 0]
  /\ rc' = [i \in Objs |-> IF i \in k THEN rc[i]-Sum([j \in Objs |-> refs[j][i]],live \ k) ELSE 0] /\ UNCHANGED hnd
Step(A,m) == A /\ mode' = m
Next == Step(New,"run") \/ Step(Copy,"run") \/ Step(Link,"run") \/ Step(Unlink,"run") \/ Step(Read,"run") \/ Step(DropH,"run") \/ Step(Abandon,"run") \/ Step(Gc,"gc") \/ Step(TopGc,"top")
Inv ==
  /\ Reach \subseteq live                                        \* what can be reached is intact
  /\ rc = RcOf(live,refs,hnd,lost)                               \* counts are exact
  /\ \A i \in live : rc[i] > 0
  /\ mode = "gc" => live = ReachLost                             \* after a collection nothing else is left
  /\ mode = "top" => live = Reach
=============================================================================
