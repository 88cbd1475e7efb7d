------------------------------ MODULE Sapporo ------------------------------
(***************************************************************************)
(* Conversion to and from SAPPOROBDD.                                      *)
(*                                                                         *)
(* State: the number of variables of the package and, for every handle, a  *)
(* Boolean function (set of codes over the levels 1..N) or a family (set   *)
(* of sets of levels).                                                     *)
(*                                                                         *)
(* Export with offset o moves level i to level i + o, creating missing     *)
(* variables; a function with a node that would move below level 1 is      *)
(* refused, a family loses the sets that contain such an item.  Import     *)
(* with offset o moves level i + o to level i, with the same rule.         *)
(***************************************************************************)
EXTENDS DD, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == 8
VARIABLES cs, l, bad, used, fn, fam
vars == <<cs, l, bad, used, fn, fam>>
Init == cs \in 1..Len(Trace) /\ l = 0 /\ bad = "" /\ used = 0 /\ fn = <<>> /\ fam = <<>>
Ev == Trace[cs].ev
Tab(t) == Trace[cs].tabs[t]

(* functions *)
MoveUp(S, o) == UNION { { x * Pow(2, o) + y : y \in 0..(Pow(2, o) - 1) } : x \in S }     \* S over 1..(N - o)
Bit(x, i) == Digit(2, x, i)
Flip(x, i) == IF Bit(x, i) = 1 THEN x - Pow(2, i - 1) ELSE x + Pow(2, i - 1)
Depends(S, i) == \E x \in S : Flip(x, i) \notin S
MoveDown(S, o) == { x \div Pow(2, o) : x \in S }

(* families *)
Shift(F, o) == { { i + o : i \in s } : s \in { t \in F : \A i \in t : i + o >= 1 } }

(* what a reduction does to the meaning: nothing, provided it fits the kind *)
Low(D, o) == \E k \in 1..Len(D.nodes) : D.nodes[k][1] + o < 1
Reduced(D, zdd) == /\ Cardinality({ D.nodes[k] : k \in 1..Len(D.nodes) }) = Len(D.nodes)
                   /\ \A k \in 1..Len(D.nodes) : IF zdd THEN D.nodes[k][3] # 0 ELSE D.nodes[k][2] # D.nodes[k][3]

ToB(e) ==
    LET up == IF e.off >= 0 THEN e.off ELSE 0
        m == N - up
        S == DenB(e.d, 2, m)
    IN IF DenB(Tab(e.x), 2, m) # S THEN [v |-> "diagram", S |-> {}, ok |-> FALSE]
       ELSE IF Low(e.d, e.off) THEN [v |-> IF e.err = "" THEN "accepted-low-level" ELSE "", S |-> {}, ok |-> FALSE]
       ELSE IF e.err # "" THEN [v |-> "refused", S |-> {}, ok |-> FALSE]
       ELSE LET W == IF e.off >= 0 THEN MoveUp(S, e.off)
                     ELSE { x : x \in DenB([e.d EXCEPT !.nodes = [k \in 1..Len(e.d.nodes) |-> [e.d.nodes[k] EXCEPT ![1] = @ + e.off]]], 2, N) }
            IN [v |-> IF ~ WellFormed(e.f, 2) \/ ~ Reduced(e.f, FALSE) THEN "malformed"
                      ELSE IF DenB(e.f, 2, N) # W THEN "function"
                      ELSE IF e.thr > 1 THEN "threads"
                      ELSE IF e.leak # 0 THEN "leak"
                      ELSE "", S |-> W, ok |-> TRUE]
ToZ(e) ==
    LET F == Sets(e.d)
        W == Shift(F, e.off)
    IN IF Sets(Tab(e.x)) # F THEN [v |-> "diagram", S |-> {}, ok |-> FALSE]
       ELSE IF e.err # "" THEN [v |-> "refused", S |-> {}, ok |-> FALSE]
       ELSE [v |-> IF ~ WellFormed(e.f, 2) \/ ~ Reduced(e.f, TRUE) THEN "malformed"
                   ELSE IF Sets(e.f) # W THEN "family"
                   ELSE IF e.thr > 1 THEN "threads"
                   ELSE IF e.leak # 0 THEN "leak"
                   ELSE "", S |-> W, ok |-> TRUE]
FromB(e) ==
    LET S == fn[e.r]
        T == fn[e.x]
        low(X) == \E i \in 1..e.off : Depends(X, i)
        m == N - e.off
        W == CASE e.how = "and" -> MoveDown(S, e.off) \cap MoveDown(T, e.off)
               [] e.how = "or" -> MoveDown(S, e.off) \cup MoveDown(T, e.off)
               [] e.how = "subset" -> MoveDown(S, e.off) \cap DenB(Tab("t"), 2, m)
               [] OTHER -> MoveDown(S, e.off)
    IN IF e.how = "build" /\ low(S) THEN (IF e.err = "" THEN "accepted-low-level" ELSE "")
       ELSE IF low(S) \/ (e.how \in {"and", "or"} /\ low(T)) THEN ""
       ELSE IF e.err # "" THEN "refused"
       ELSE IF ~ WellFormed(e.d, 2) THEN "malformed"
       ELSE IF DenB(e.d, 2, m) # W THEN "function"
       ELSE IF e.how = "build" /\ ~ Reduced(e.d, FALSE) THEN "not-reduced"
       ELSE IF e.leak # 0 THEN "leak"
       ELSE ""
FromZ(e) ==
    LET S == Shift(fam[e.r], -e.off)
        T == Shift(fam[e.x], -e.off)
        W == CASE e.how = "and" -> S \cap T
               [] e.how = "or" -> S \cup T
               [] e.how = "subset" -> S \cap Sets(Tab("t"))
               [] OTHER -> S
    IN IF e.err # "" THEN "refused"
       ELSE IF ~ WellFormed(e.d, 2) THEN "malformed"
       ELSE IF Sets(e.d) # W THEN "family"
       ELSE IF e.leak # 0 THEN "leak"
       ELSE ""

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Need(e) == IF e.op \in {"tob", "toz"} /\ e.top + e.off > used THEN e.top + e.off ELSE used

Step(e) ==
    \/ /\ e.op = "vars" /\ bad' = "" /\ used' = e.used /\ UNCHANGED <<fn, fam>>
    \/ /\ e.op = "tob"
       /\ LET r == ToB(e) IN
          /\ bad' = IF r.v # "" THEN r.v ELSE IF r.ok /\ e.used < Need(e) THEN "variables" ELSE ""
          /\ fn' = (IF r.ok THEN Put(fn, e.r, r.S) ELSE fn)
       /\ used' = e.used /\ UNCHANGED fam
    \/ /\ e.op = "toz"
       /\ LET r == ToZ(e) IN
          /\ bad' = IF r.v # "" THEN r.v ELSE IF r.ok /\ e.used < Need(e) THEN "variables" ELSE ""
          /\ fam' = (IF r.ok THEN Put(fam, e.r, r.S) ELSE fam)
       /\ used' = e.used /\ UNCHANGED fn
    \/ /\ e.op = "fromb" /\ bad' = FromB(e) /\ UNCHANGED <<used, fn, fam>>
    \/ /\ e.op = "fromz" /\ bad' = FromZ(e) /\ UNCHANGED <<used, fn, fam>>

Next == bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs /\ Step(Ev[l + 1])
Accepted == bad = ""
=============================================================================
