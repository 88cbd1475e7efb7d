-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of specification states.  A top-down algorithm owns storage    *)
(* slots; a slot is dead or holds one state object.  The specification     *)
(* says which calls are allowed in which slot state, and what value each   *)
(* live object must have, because every value originates in getRoot and    *)
(* moves only through copies and getChild.                                 *)
(*                                                                         *)
(*   live : slot -> <<>> (dead) or <<table, id>> (id = -1: constructed,    *)
(*          not yet initialised by getRoot)                                *)
(*   done : spec instance -> levels announced by destructLevel             *)
(*                                                                         *)
(* Events of the recorded log (kind first):                                *)
(*  0 construct a            1 copy-construct a from b     2 destroy a     *)
(*  3 assign a := b          4 getRoot(a) table spec                       *)
(*  5 getChild(a) table spec level value stored-id array-id                *)
(*  6 hash(a) table level    7 equal(a,b) table level      8 merge(a,b)    *)
(*  9 destructLevel table spec level                      10 print(a) ..   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cs, l, bad
vars == <<cs, l, bad>>

Dead == <<>>
Lev(T, id) == IF id = 0 THEN 0 ELSE IF id = 1 THEN -1 ELSE T.nodes[id - 1][1]
Kid(T, id, b) == T.nodes[id - 1][2 + b]

Fail(s, why) == [s EXCEPT !.bad = why]

(* a state may be used at level lv by table k's specification *)
At(c, v, k, lv) ==
    /\ v # Dead
    /\ v[1] = k
    /\ v[2] >= 2
    /\ Lev(c.tabs[k], v[2]) = lv

Step(c, s, e) ==
    LET k == e[1]
        v == IF k = 9 THEN Dead ELSE s.live[e[2]]
    IN CASE k = 0 -> IF v # Dead THEN Fail(s, "constructed over a live state")
                     ELSE [s EXCEPT !.live[e[2]] = <<0, -1>>]
         [] k = 1 -> IF v # Dead THEN Fail(s, "copied over a live state")
                     ELSE IF s.live[e[3]] = Dead THEN Fail(s, "copied from a dead state")
                     ELSE [s EXCEPT !.live[e[2]] = s.live[e[3]]]
         [] k = 2 -> IF v = Dead THEN Fail(s, "destroyed a state that is not live")
                     ELSE [s EXCEPT !.live[e[2]] = Dead]
         [] k = 3 -> IF v = Dead \/ s.live[e[3]] = Dead THEN Fail(s, "assignment with a dead state")
                     ELSE [s EXCEPT !.live[e[2]] = s.live[e[3]]]
         [] k = 4 -> IF v = Dead THEN Fail(s, "getRoot on storage without a state")
                     ELSE [s EXCEPT !.live[e[2]] = <<e[3], c.tabs[e[3]].root>>]
         [] k = 5 -> IF ~At(c, v, e[3], e[5]) THEN Fail(s, "getChild on a state that is not at that level")
                     ELSE IF e[7] # v[2] \/ e[8] # v[2] THEN Fail(s, "state contents changed behind the specification")
                     ELSE IF e[5] >= s.done[e[4]] THEN Fail(s, "getChild at a level already announced as finished")
                     ELSE IF e[6] < 0 \/ e[6] >= c.A THEN Fail(s, "decision value out of range")
                     ELSE [s EXCEPT !.live[e[2]] = <<e[3], Kid(c.tabs[e[3]], v[2], e[6])>>]
         [] k = 6 -> IF At(c, v, e[3], e[4]) THEN s ELSE Fail(s, "hash of a state that is not at that level")
         [] k = 7 -> IF At(c, v, e[4], e[5]) /\ At(c, s.live[e[3]], e[4], e[5]) THEN s
                     ELSE Fail(s, "comparison of states that are not both at that level")
         [] k = 8 -> IF v = Dead \/ s.live[e[3]] = Dead THEN Fail(s, "merge with a dead state")
                     ELSE IF v[1] # e[4] \/ s.live[e[3]][1] # e[4] THEN Fail(s, "merge of foreign states")
                     ELSE IF v[2] # s.live[e[3]][2] /\ ~ c.pair THEN Fail(s, "merge of states that are not equal")
                     ELSE s
         [] k = 9 -> IF e[4] > s.done[e[3]] THEN Fail(s, "levels announced out of order")
                     ELSE [s EXCEPT !.done[e[3]] = e[4]]
         [] k = 10 -> IF v # Dead /\ v[1] = e[3] THEN s ELSE Fail(s, "print of a state that is not live")

(* a pair of specifications may be merged while one component is stale     *)
(* (that component has already ended in a terminal)                        *)
Case(k) == LET c == Trace[k] IN
    [A |-> c.A, tabs |-> c.tabs, log |-> c.log, slots |-> c.slots, specs |-> c.specs, exc |-> c.exc,
     pair |-> \E p \in {"and.", "or.", "int.", "uni."} : Len(c.op) > Len(p) /\ SubSeq(c.op, 1, Len(p)) = p]

Run(c) ==
    LET s0 == [live |-> [a \in 1..c.slots |-> Dead],
               done |-> [p \in 1..c.specs |-> 1000000], bad |-> "", n |-> 0]
        F(s, e) == IF s.bad # "" THEN s ELSE [Step(c, s, e) EXCEPT !.n = s.n + 1]
        s1 == FoldLeft(F, s0, c.log)
    IN IF s1.bad # "" THEN <<s1.n, s1.bad>>
       ELSE IF \E a \in 1..c.slots : s1.live[a] # Dead THEN <<s1.n, "states left alive at the end">>
       ELSE IF c.exc THEN <<s1.n, "unexpected exception">>
       ELSE <<s1.n, "">>

Init == /\ cs \in 1..Len(Trace)
        /\ l = 0
        /\ bad = ""

Next == /\ l = 0
        /\ LET r == Run(Case(cs)) IN
           /\ l' = r[1] + 1
           /\ bad' = r[2]
        /\ UNCHANGED cs

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
