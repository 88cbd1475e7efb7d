------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Value semantics of diagram handles over shared, reference-counted node  *)
(* tables with copy on write.                                              *)
(*                                                                         *)
(* val : handle -> logical value (what the user must observe)              *)
(* ptr : handle -> table it refers to          obj : table -> [rc, v]      *)
(*                                                                         *)
(* Each API call is one action that describes both what the user expects   *)
(* (val') and what the sharing discipline does to the tables (ptr', obj'). *)
(* TLC checks exhaustively that the discipline implements the expectation  *)
(* and enumerates every call history; the check replays those histories    *)
(* into the real library (as sessions validated by Session.tla).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS H,        \* handle names
          DEPTH,    \* length of a history
          EMIT,     \* print complete histories
          FLAW      \* "" or a deliberately broken discipline (negative control)

VARIABLES val, ptr, obj, hist, nxt
vars == <<val, ptr, obj, hist, nxt>>

NONE == <<"none">>
Live == { h \in H : val[h] # NONE }

Deref(o, p) == IF p = 0 THEN o
               ELSE IF o[p].rc = 1 THEN TLCEval([q \in DOMAIN o \ {p} |-> o[q]])
               ELSE [o EXCEPT ![p].rc = @ - 1]
Ref(o, p) == [o EXCEPT ![p].rc = @ + 1]
New(o, p, v) == TLCEval([q \in DOMAIN o \cup {p} |-> IF q = p THEN [rc |-> 1, v |-> v] ELSE o[q]])

Init == /\ val = [h \in H |-> IF h = "a" THEN <<"t">> ELSE IF h = "b" THEN <<"u">> ELSE NONE]
        /\ ptr = [h \in H |-> IF h = "a" THEN 1 ELSE IF h = "b" THEN 2 ELSE 0]
        /\ obj = [q \in {1, 2} |-> [rc |-> 1, v |-> IF q = 1 THEN <<"t">> ELSE <<"u">>]]
        /\ hist = <<>>
        /\ nxt = 3

Do(s) == hist' = Append(hist, IF EMIT THEN s ELSE "")

Build(r, t) == /\ Do("build " \o r \o " " \o t)
               /\ val' = [val EXCEPT ![r] = <<t>>]
               /\ obj' = Deref(New(obj, nxt, <<t>>), ptr[r])
               /\ ptr' = [ptr EXCEPT ![r] = nxt]
               /\ nxt' = nxt + 1
Copy(r, s) == /\ s \in Live /\ r # s
              /\ Do("copy " \o r \o " " \o s)
              /\ val' = [val EXCEPT ![r] = val[s]]
              /\ obj' = Deref(Ref(obj, ptr[s]), ptr[r])
              /\ ptr' = [ptr EXCEPT ![r] = ptr[s]]
              /\ UNCHANGED nxt
Asg(r, s) == /\ r \in Live /\ s \in Live
             /\ Do("asg " \o r \o " " \o s)
             /\ val' = [val EXCEPT ![r] = val[s]]
             /\ obj' = (IF FLAW = "deref-first"
                        THEN LET o == Deref(obj, ptr[r]) IN IF ptr[s] \in DOMAIN o THEN Ref(o, ptr[s]) ELSE o
                        ELSE Deref(Ref(obj, ptr[s]), ptr[r]))
             /\ ptr' = [ptr EXCEPT ![r] = ptr[s]]
             /\ UNCHANGED nxt
Swap(r, s) == /\ r \in Live /\ s \in Live /\ r # s
              /\ Do("swap " \o r \o " " \o s)
              /\ val' = [val EXCEPT ![r] = val[s], ![s] = val[r]]
              /\ ptr' = [ptr EXCEPT ![r] = ptr[s], ![s] = ptr[r]]
              /\ UNCHANGED <<obj, nxt>>
Drop(r) == /\ r \in Live /\ Cardinality(Live) > 1
           /\ Do("drop " \o r)
           /\ val' = [val EXCEPT ![r] = NONE]
           /\ obj' = Deref(obj, ptr[r])
           /\ ptr' = [ptr EXCEPT ![r] = 0]
           /\ UNCHANGED nxt
\* reduction rewrites the table in place, after making it private
Red(r, k) == /\ r \in Live
             /\ Do("red " \o r \o " " \o k)
             /\ LET v2 == Append(val[r], k) IN
                /\ val' = [val EXCEPT ![r] = v2]
                /\ IF obj[ptr[r]].rc > 1 /\ FLAW # "no-copy"
                   THEN /\ obj' = New(Deref(obj, ptr[r]), nxt, v2)
                        /\ ptr' = [ptr EXCEPT ![r] = nxt]
                        /\ nxt' = nxt + 1
                   ELSE /\ obj' = [obj EXCEPT ![ptr[r]].v = v2]
                        /\ UNCHANGED <<ptr, nxt>>
\* subsetting consumes the old rows only if nobody else refers to them
Subset(r, s) == /\ r \in Live /\ s \in Live
                /\ Do("subsetr " \o r \o " " \o s)
                /\ LET v2 == val[r] \o <<"&">> \o val[s]
                       o == IF obj[ptr[r]].rc = 1 \/ FLAW = "clear-shared"
                            THEN [obj EXCEPT ![ptr[r]].v = <<"cleared">>] ELSE obj IN
                   /\ val' = [val EXCEPT ![r] = v2]
                   /\ obj' = Deref(New(o, nxt, v2), ptr[r])
                   /\ ptr' = [ptr EXCEPT ![r] = nxt]
                   /\ nxt' = nxt + 1

Next == /\ Len(hist) < DEPTH
        /\ \/ \E r \in H : Drop(r) \/ Build(r, "t")
           \/ \E r \in H, k \in {"z", "b"} : Red(r, k)
           \/ \E r, s \in H : Copy(r, s) \/ Asg(r, s) \/ Subset(r, s) \/ (r # s /\ Swap(r, s))
        /\ (EMIT /\ Len(hist') = DEPTH) =>
              PrintT("HIST " \o FoldLeft(LAMBDA x, y : IF x = "" THEN y ELSE x \o ";" \o y, "", hist'))

Spec == Init /\ [][Next]_vars

(* what a handle shows is its logical value *)
ValueSemantics == \A h \in Live : ptr[h] \in DOMAIN obj /\ obj[ptr[h]].v = val[h]
(* reference counts are exact, no table outlives its handles *)
RefCounts == /\ \A q \in DOMAIN obj : obj[q].rc = Cardinality({ h \in H : ptr[h] = q })
             /\ \A h \in H : ptr[h] # 0 => ptr[h] \in DOMAIN obj
NoOrphans == \A q \in DOMAIN obj : \E h \in H : ptr[h] = q
=============================================================================
