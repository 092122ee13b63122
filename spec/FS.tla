--------------------------------- MODULE FS ---------------------------------
(* The file functions over a tree of files, directories and symbolic links.  *)
(* A path inside the tree is the sequence of its names, a name a sequence of *)
(* codepoints; the tree maps paths to <<"f",bytes>>, <<"d">> or              *)
(* <<"l",target>>.  <<-1>> as contents: not known (a write that failed).     *)
(* /R is the root of the tree, and everything above it is out of reach.      *)
EXTENDS Text
RNAME == <<82>>
SLASH == 47
DOT == <<46>>
DOTDOT == <<46,46>>
\* components between slashes
SplitP(s) == FoldLeft(LAMBDA a,c : IF c = SLASH THEN Append(a,<<>>) ELSE [a EXCEPT ![Len(a)] = Append(@,c)], << <<>> >>, s)
AbsP(s) == s # <<>> /\ s[1] = SLASH
\* a path given relative to a base
RelP(base,s) == IF s # <<>> /\ AbsP(s) THEN s ELSE IF s = <<>> THEN base ELSE IF base = <<>> THEN s
                ELSE IF base[Len(base)] = SLASH THEN base \o s ELSE base \o <<SLASH>> \o s
Stored(fs,p) == p \in DOMAIN fs
Kind(fs,p) == fs[p][1]
RECURSIVE Walk(_,_,_,_,_)
\* <<"ok",path>>, <<"no",path,trailing slash>> when only the last name is missing, <<"err">>, <<"out">>
Walk(fs,cur,rest,follow,budget) ==
  IF rest = <<>> THEN <<"ok",cur>>
  ELSE LET c == rest[1] r == Tail(rest) IN
    IF Kind(fs,cur) # "d" THEN <<"err">>
    ELSE IF c = <<>> \/ c = DOT THEN Walk(fs,cur,r,follow,budget)
    ELSE IF c = DOTDOT THEN IF cur = <<>> THEN <<"out">> ELSE Walk(fs,SubSeq(cur,1,Len(cur)-1),r,follow,budget)
    ELSE LET p == Append(cur,c) IN
      IF ~Stored(fs,p) THEN IF cur = <<>> THEN <<"err">> ELSE IF   \* nothing can be made next to R
             \A i \in 1..Len(r) : r[i] = <<>> THEN <<"no",p,r # <<>>>> ELSE <<"err">>
      ELSE IF Kind(fs,p) = "l" /\ (follow \/ r # <<>>) THEN
        IF budget = 0 THEN <<"err">>
        ELSE LET t == fs[p][2] IN Walk(fs,IF AbsP(t) THEN <<>> ELSE cur,SplitP(t) \o r,follow,budget-1)
      ELSE Walk(fs,p,r,follow,budget)
Find(fs,s,follow) == IF s = <<>> THEN <<"err">> ELSE IF \E i \in 1..Len(s) : s[i] = 0 THEN <<"err">> ELSE Walk(fs,<<>>,SplitP(s),follow,40)
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[Len(s)] = SLASH THEN Strip(SubSeq(s,1,Len(s)-1)) ELSE s
Trail(s) == s # <<>> /\ s[Len(s)] = SLASH
LastComp(s) == LET q == SplitP(Strip(s)) IN q[Len(q)]
\* strings as values
StrV(s) == <<2,<<Len(s)>>,<<>> \o [i \in 1..Len(s) |-> Ch(s[i])]>>
\* the text of a path inside the tree
PathText(p) == FoldLeft(LAMBDA a,n : a \o <<SLASH>> \o n, <<>>, p)
FilesUnder(fs,p) == {q \in DOMAIN fs : Len(q) >= Len(p) /\ SubSeq(q,1,Len(p)) = p}
Without(fs,S) == [q \in DOMAIN fs \ S |-> fs[q]]
PutF(fs,p,v) == (p :> v) @@ fs
---------------------------------------------------------------------------
(* contents                                                                  *)
IsCharList(x) == IsArr(x) /\ Rk(x) = 1 /\ \A i \in 1..Len(x[3]) : IsChr(x[3][i])
Utf8Of(cs) == FoldLeft(LAMBDA a,c : a \o EncU(c[2]), <<>>, cs)
BADDATA == <<-2>>
\* bytes of what is written, or BADDATA
CharsData(x) == IF IsCharList(x) THEN Utf8Of(x[3]) ELSE BADDATA
BytesData(x) == IF ~IsArr(x) \/ Rk(x) # 1 THEN BADDATA ELSE <<>> \o [i \in 1..Len(x[3]) |-> x[3][i][2]]
LinesData(x) == IF ~IsArr(x) \/ Rk(x) # 1 THEN BADDATA
                ELSE IF \E i \in 1..Len(x[3]) : ~IsCharList(x[3][i]) THEN BADDATA
                ELSE FoldLeft(LAMBDA a,v : a \o Utf8Of(v[3]) \o <<10>>, <<>>, x[3])
\* bytes to lines: ended by LF, CR LF or CR
LinesOf(b) == LET st == FoldLeft(LAMBDA a,c : IF c = 10 THEN (IF a.cr THEN [a EXCEPT !.cr = FALSE] ELSE [a EXCEPT !.done = Append(@,a.cur), !.cur = <<>>, !.open = FALSE])
                                     ELSE IF c = 13 THEN [a EXCEPT !.done = Append(@,a.cur), !.cur = <<>>, !.open = FALSE, !.cr = TRUE]
                                     ELSE [a EXCEPT !.cur = Append(@,c), !.open = TRUE, !.cr = FALSE],
                                  [done |-> <<>>, cur |-> <<>>, open |-> FALSE, cr |-> FALSE], b)
              IN IF st.open THEN Append(st.done,st.cur) ELSE st.done
ByteV(b) == List(<<>> \o [i \in 1..Len(b) |-> Ch(b[i])])
CharsV(b) == DecU(b,1,<<>>)
LinesV(b) == LET l == LinesOf(b) v == <<>> \o [i \in 1..Len(l) |-> CharsV(l[i])] IN IF \E i \in 1..Len(v) : v[i] = ERR THEN ERR ELSE List(v)
UNKNOWN == <<-1>>
---------------------------------------------------------------------------
(* operations: <<response, tree>>                                            *)
WriteFile(fs,s,data,lim) ==
  LET f == Find(fs,s,TRUE)
      ok == (f[1] = "ok" /\ Kind(fs,f[2]) = "f") \/ (f[1] = "no" /\ ~f[3])
  IN IF data = BADDATA THEN <<ERR,fs>>
     ELSE IF f[1] = "out" THEN <<NC,fs>>
     ELSE IF ~ok THEN <<ERR,fs>>
     ELSE IF lim >= 0 /\ Len(data) > lim THEN <<ERR,PutF(fs,f[2],<<"f",UNKNOWN>>)>>
     ELSE <<StrV(s),PutF(fs,f[2],<<"f",data>>)>>
ReadFile(fs,s,How(_)) ==
  LET f == Find(fs,s,TRUE) IN
  IF f[1] = "out" THEN NC ELSE IF f[1] # "ok" THEN ERR ELSE IF Kind(fs,f[2]) # "f" THEN ERR
  ELSE IF fs[f[2]][2] = UNKNOWN THEN NC ELSE How(fs[f[2]][2])
Rename(fs,old,new) ==
  LET o == Find(fs,Strip(old),FALSE)  n == Find(fs,Strip(new),FALSE)  there == Find(fs,new,TRUE)
      od == Kind(fs,o[2]) = "d"
      res == IF o[2] = n[2] THEN fs
             ELSE LET S == FilesUnder(fs,o[2]) k == Len(o[2])
                      g == Without(fs,S \cup {n[2]})
                      moved == [q \in {n[2] \o SubSeq(p,k+1,Len(p)) : p \in S} |-> fs[o[2] \o SubSeq(q,Len(n[2])+1,Len(q))]]
                  IN moved @@ g
  IN IF "out" \in {o[1],n[1],there[1]} THEN <<NC,fs>>
     ELSE IF there[1] = "ok" THEN <<ERR,fs>>
     ELSE IF old = <<>> \/ new = <<>> THEN <<ERR,fs>>
     ELSE IF o[1] # "ok" \/ LastComp(old) \in {DOT,DOTDOT} THEN <<ERR,fs>>
     ELSE IF n[1] = "err" \/ LastComp(new) \in {DOT,DOTDOT} THEN <<ERR,fs>>
     ELSE IF Trail(old) /\ ~od THEN <<ERR,fs>>
     ELSE IF Trail(new) /\ ~(od /\ n[1] = "no") THEN <<ERR,fs>>
     ELSE IF n[1] = "ok" /\ od THEN <<ERR,fs>>                    \* a dangling link is not replaced by a directory
     ELSE IF od /\ n[2] \in {q \o <<n[2][Len(n[2])]>> : q \in FilesUnder(fs,o[2])} THEN <<ERR,fs>>
     ELSE <<StrV(new),res>>
FileRead(fs,s,k) == ReadFile(fs,s,LAMBDA b : IF k = "rchars" THEN CharsV(b) ELSE IF k = "rlines" THEN LinesV(b) ELSE ByteV(b))
Lookup(fs,s,follow,Then(_)) == LET f == Find(fs,s,follow) IN IF f[1] = "out" THEN NC ELSE IF f[1] = "ok" THEN Then(f[2]) ELSE ERR
BaseOf == <<SLASH>> \o RNAME \o <<SLASH,100,48>>      \* /R/d0
\* number of the last slash before position i, 0 if none
RECURSIVE SlashBefore(_,_)
SlashBefore(s,i) == IF i <= 0 THEN 0 ELSE IF s[i] = SLASH THEN i ELSE SlashBefore(s,i-1)
ParentOf(s) == IF s = <<>> THEN ERR ELSE LET k == SlashBefore(s,Len(s)-1) IN IF k > 0 THEN StrV(SubSeq(s,1,k)) ELSE IF AbsP(s) THEN StrV(s) ELSE StrV(<<46,SLASH>>)
NameOf(s) == IF s = <<>> THEN ERR ELSE LET k == SlashBefore(s,Len(s)) IN IF k = Len(s) THEN ERR ELSE StrV(SubSeq(s,k+1,Len(s)))
TypeChar(k) == Ch(CASE k = "f" -> 102 [] k = "d" -> 100 [] k = "l" -> 108)
SizeOf(e) == CASE e[1] = "f" -> (IF e[2] = UNKNOWN THEN NC ELSE N(Len(e[2]))) [] e[1] = "d" -> NC [] e[1] = "l" -> IF AbsP(e[2]) THEN NC ELSE N(Len(Utf8Of([i \in 1..Len(e[2]) |-> Ch(e[2][i])])))
Names(fs,p) == {q[Len(p)+1] : q \in {q \in DOMAIN fs : Len(q) = Len(p)+1 /\ SubSeq(q,1,Len(p)) = p}}
FsOp(fs,op) ==
  LET k == op[1] s == IF k \in {"ls","path","fifo"} THEN <<>> ELSE RelP(BaseOf,op[2]) IN
  CASE k = "wchars" -> WriteFile(fs,s,CharsData(op[3]),-1)
    [] k = "wbytes" -> WriteFile(fs,s,BytesData(op[3]),-1)
    [] k = "wlines" -> WriteFile(fs,s,LinesData(op[3]),-1)
    [] k = "lim" -> WriteFile(fs,s,IF op[4] = "wchars" THEN CharsData(op[3]) ELSE IF op[4] = "wlines" THEN LinesData(op[3]) ELSE BytesData(op[3]),op[5])
    [] k \in {"rchars","rbytes","rlines","mbytes"} -> <<FileRead(fs,s,k),fs>>
    [] k = "exists" -> <<LET f == Find(fs,s,FALSE) IN IF \E i \in 1..Len(s) : s[i] = 0 THEN ERR ELSE IF f[1] = "out" THEN NC ELSE Bool(f[1] = "ok"),fs>>
    [] k = "type" -> <<Lookup(fs,s,FALSE,LAMBDA p : TypeChar(Kind(fs,p))),fs>>
    [] k = "size" -> <<Lookup(fs,s,FALSE,LAMBDA p : SizeOf(fs[p])),fs>>
    [] k = "list" -> <<Lookup(fs,s,TRUE,LAMBDA p : IF Kind(fs,p) # "d" THEN ERR ELSE <<10,Names(fs,p)>>),fs>>
    [] k = "mkdir" -> LET t == Strip(s) a == Find(fs,t,FALSE) IN
         IF a[1] = "out" THEN <<NC,fs>> ELSE IF a[1] = "no" THEN <<StrV(s),PutF(fs,a[2],<<"d">>)>> ELSE <<ERR,fs>>
    [] k = "rename" -> Rename(fs,RelP(BaseOf,op[3]),s)
    [] k = "remove" -> LET a == Find(fs,s,FALSE) IN
         IF a[1] = "out" THEN <<NC,fs>> ELSE IF a[1] # "ok" \/ Trail(s) THEN <<ERR,fs>>
         ELSE IF Kind(fs,a[2]) = "d" THEN <<ERR,fs>> ELSE <<N(1),Without(fs,{a[2]})>>
    [] k = "real" -> <<Lookup(fs,s,TRUE,LAMBDA p : StrV(PathText(p))),fs>>
    [] k = "at" -> <<StrV(s),fs>>
    [] k = "at2" -> <<StrV(RelP(op[3],op[2])),fs>>
    [] k = "name" -> <<NameOf(op[2]),fs>>
    [] k = "parent" -> <<ParentOf(op[2]),fs>>
    [] k = "path" -> <<StrV(BaseOf),fs>>
    [] k = "times" -> <<Lookup(fs,s,FALSE,LAMBDA p : IF Kind(fs,p) = "l" THEN NC ELSE List(<<N(op[3]),N(op[4])>>)),fs>>
    [] k = "badpath" -> <<ERR,fs>>
    [] k = "fifo" -> <<List(<<N(op[2]),N(1)>>),fs>>
    \* changes made from outside: op[3] is <<kind, contents>>; nothing when the place is not there
    [] k = "ext" -> LET a == Find(fs,s,FALSE) IN
         IF a[1] = "no" /\ ~a[3] THEN <<NC,PutF(fs,a[2],op[3])>>
         ELSE IF a[1] = "ok" /\ Kind(fs,a[2]) # "d" /\ ~Trail(s) THEN <<NC,PutF(fs,a[2],op[3])>> ELSE <<NC,fs>>
    [] k = "ls" -> <<<<11,{<<q,fs[q]>> : q \in DOMAIN fs \ {<<>>,<<RNAME>>}}>>,fs>>
Fs0 == (<<>> :> <<"d">>) @@ (<<RNAME>> :> <<"d">>) @@ (<<RNAME,<<100,48>>>> :> <<"d">>)
\* an entry of the listing made from outside, against an entry of the tree
EntryOk(e,o) == e[1] = o[1] /\ (e[2] = o[2] \/ (e[2] = <<"f",UNKNOWN>> /\ o[2][1] = "f"))
FsAgree(e,o) ==
  CASE e[1] = 10 -> IsArr(o) /\ Rk(o) = 1 /\ Len(o[3]) = Cardinality(e[2]) /\ {<<>> \o [i \in 1..Len(v[3]) |-> v[3][i][2]] : v \in {o[3][j] : j \in 1..Len(o[3])}} = e[2]
    [] e[1] = 11 -> Len(o) = Cardinality(e[2]) /\ \A x \in e[2] : \E j \in 1..Len(o) : EntryOk(x,o[j])
    [] e[1] = 8 -> TRUE
    [] OTHER -> e = o
=============================================================================
