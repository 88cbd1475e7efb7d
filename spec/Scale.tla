------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Large diagrams with known answers.  Family F(A, p, m, R): the numbers   *)
(* x < A^(p*m) in base A (digit i at level i) with x = R modulo M, where   *)
(* M = A^p - 1.  As A^p = 1 modulo M, everything about its diagrams is     *)
(* known in closed form, whatever their size:                              *)
(*                                                                         *)
(*  - the prefix read above level i has A^k values (k = p*m - i), so row i *)
(*    has min(A^k, M) reachable states (Reach);                            *)
(*  - for i >= p every state can still be completed; for i < p a state has *)
(*    at most one completion y < A^i, and every y occurs: A^i states are   *)
(*    alive (Alive).  Different living states have disjoint sets of        *)
(*    completions, so no two are merged and none is redundant;             *)
(*  - a node is zero-suppressed iff every completion starts with digit 0:  *)
(*    for i <= p there remain A^i - A^(i-1) (Kept);                        *)
(*  - there are (A^(p*m) - 1) / M members, one more when R = 0.            *)
(*                                                                         *)
(* State: D  register |-> [p, m, Rs, form]; Rs is the set of residues,     *)
(* form is "raw", "q", "b" or "z".                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l, bad, D
vars == <<cs, l, bad, D>>
Ev == Trace[cs].ev
A == Trace[cs].A
Init == cs \in 1..Len(Trace) /\ l = 0 /\ bad = "" /\ D = <<>>

Mod(p) == A^p - 1
Lv(d) == d.p * d.m
Reach(d, i) == LET k == Lv(d) - i IN IF k >= d.p THEN Mod(d.p) ELSE A^k
Alive(d, i) == IF i >= d.p THEN Reach(d, i) ELSE A^i
Kept(d, i) == IF i > d.p THEN Reach(d, i) ELSE A^i - A^(i - 1)
Count(d) == LET c == IF d.m = 1 THEN 1 ELSE IF d.m = 2 THEN A^d.p + 1 ELSE A^(2 * d.p) + A^d.p + 1
            IN Cardinality(d.Rs) * c + (IF 0 \in d.Rs THEN 1 ELSE 0)
(* rows are recorded as runs <<length, size>> from level 1 upwards; the    *)
(* first and the last level of every run decide, as the formulas are       *)
(* constant from level p+1 to level p*(m-1)                                *)
RunEnd(rows, k) == FoldLeft(LAMBDA a, x : a + x[1], 0, SubSeq(rows, 1, k))
RowsAre(d, rows, lo(_, _), hi(_, _)) ==
    /\ RunEnd(rows, Len(rows)) = Lv(d)
    /\ \A k \in 1..Len(rows) :
         LET e == RunEnd(rows, k)
             b == e - rows[k][1] + 1
             watch == (b..e) \cap ((1..(d.p + 1)) \cup ((d.p * (d.m - 1))..Lv(d)) \cup {b, e})
         IN \A i \in watch : lo(d, i) <= rows[k][2] /\ rows[k][2] <= hi(d, i)
Nodes(rows) == FoldLeft(LAMBDA a, x : a + x[1] * x[2], 0, rows)

(* one residue: the shape is known; none: the diagram is empty (raw ones   *)
(* may still hold dead nodes); several: only its members are               *)
Shape(d, e) ==
    IF Cardinality(d.Rs) = 1
    THEN CASE d.form = "raw" -> RowsAre(d, e.rows, Alive, Reach) /\ e.top = Lv(d)
           [] d.form \in {"q", "b"} -> RowsAre(d, e.rows, Alive, Alive) /\ e.top = Lv(d) /\ e.size = Nodes(e.rows)
           [] d.form = "z" -> RowsAre(d, e.rows, Kept, Kept) /\ e.top = Lv(d) /\ e.size = Nodes(e.rows)
           [] OTHER -> TRUE
    ELSE IF d.Rs = {} THEN d.form \notin {"q", "b", "z"} \/ (e.rows = <<>> /\ e.size = 0 /\ e.top = 0)
    ELSE TRUE

New(e) ==
    CASE e.op = "build" -> [p |-> e.p, m |-> e.m, Rs |-> {e.R}, form |-> IF e.la = "-" THEN "raw" ELSE "look"]
      [] e.op = "red" -> [D[e.r] EXCEPT !.form = e.how]
      [] e.op = "sub" -> [D[e.r] EXCEPT !.Rs = { r \in @ : r % Mod(e.q) = e.R }, !.form = "prod"]
      [] e.op = "op" -> [D[e.x] EXCEPT !.Rs = IF e.how \in {"u", "bo"} THEN @ \cup D[e.y].Rs ELSE @ \cap D[e.y].Rs, !.form = "prod"]
      [] e.op = "copy" -> D[e.x]

Residue(p, S) == FoldSet(LAMBDA i, a : (a + A^((i - 1) % p)) % Mod(p), 0, S)
Member(d, s) == LET S == { s[k] : k \in 1..Len(s) }
                IN Cardinality(S) = Len(s) /\ S \subseteq 1..Lv(d) /\ Residue(d.p, S) \in d.Rs

Verdict(e) ==
    IF e.err # "" THEN "refused"
    ELSE CASE e.op \in {"build", "red", "sub", "op"} -> IF Shape(New(e), e) THEN "" ELSE "shape"
      [] e.op = "eq" -> IF e.res = (D[e.x].Rs = D[e.y].Rs) THEN "" ELSE "equality"
      [] e.op = "card" -> IF e.c = ToString(Count(D[e.r])) THEN "" ELSE "count"
      [] e.op = "ends" -> LET d == D[e.r] M == Mod(d.p) IN
             IF e.any # (d.Rs # {}) THEN "emptiness"
             ELSE IF d.Rs = {} THEN ""
             ELSE IF e.lo = Min(d.Rs) /\ e.hi = Min({ (M - r) % M : r \in d.Rs }) THEN "" ELSE "least-and-greatest"
      [] e.op = "iter" -> LET d == D[e.r] IN
             IF e.n # Count(d) THEN "number-of-members"
             ELSE IF \E i \in 1..Len(e.mem) : ~ Member(d, e.mem[i]) THEN "member"
             ELSE IF Cardinality({ e.mem[i] : i \in 1..Len(e.mem) }) # Len(e.mem) THEN "repeated" ELSE ""
      [] e.op = "paths" -> IF e.c = ToString(Count([p |-> e.p, m |-> e.m, Rs |-> {e.R}])) THEN "" ELSE "paths"
      [] e.op = "sap" -> LET d == D[e.r]
                             n == FoldLeft(LAMBDA a, i : a + Kept(d, i), 0, [i \in 1..Lv(d) |-> i])
                         IN IF e.ok /\ e.decl = n /\ e.nodes = n THEN "" ELSE "exported"
      [] e.op = "copy" -> ""
      [] OTHER -> "unknown-operation"

Next == /\ bad = "" /\ l < Len(Ev)
        /\ LET e == Ev[l + 1] IN
           /\ bad' = Verdict(e)
           /\ D' = IF e.err = "" /\ e.op \in {"build", "red", "sub", "op", "copy"} THEN (e.r :> New(e)) @@ D ELSE D
        /\ l' = l + 1 /\ UNCHANGED cs
Accepted == bad = ""
=============================================================================
