-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Top-down construction and subsetting with state merging.                *)
(*                                                                         *)
(* A specification may refine equality by mergeStates: the states that meet*)
(* in one node are combined, or one of them is cut off (forwarded to the   *)
(* 0-terminal), before the node is expanded.  States here carry a cost;    *)
(* W[id-1][b+1] is the cost of taking branch b in state id.                *)
(*                                                                         *)
(*   mode "min": the cheaper state survives, equal costs merge             *)
(*   mode "cap": states merge, the node takes the smaller cost; a step     *)
(*               whose cost would exceed cap leads to the 0-terminal       *)
(*                                                                         *)
(* One level-by-level run: pend is the set of arrivals                     *)
(*   [lev, key, c, pre]  (pre = set of decision prefixes sharing it),      *)
(* term the arrivals at the 1-terminal.                                    *)
(***************************************************************************)
EXTENDS DD

MinC(X) == LET x0 == CHOOSE x \in X : \A y \in X : x.c <= y.c IN x0.c
MeetPre(mode, X) ==
    IF mode = "min" THEN UNION { x.pre : x \in { y \in X : y.c = MinC(X) } }
    ELSE UNION { x.pre : x \in X }

(* one specification step: 0 if the cap forbids it *)
SpecStep(S, W, mode, cap, s, c, b) ==
    LET d == c + W[s - 1][b + 1] IN
    IF mode = "cap" /\ d > cap THEN <<0, d>> ELSE <<S.nodes[s - 1][b + 2], d>>

(* bring table node f and state s to a common level along 0-decisions *)
RECURSIVE Align(_, _, _, _, _, _, _, _)
Align(D, S, W, mode, cap, f, s, c) ==
    IF f = 0 \/ s = 0 THEN <<0, 0, c>>
    ELSE IF f = 1 /\ s = 1 THEN <<1, 1, c>>
    ELSE IF Lev(D, f) > Lev(S, s) THEN Align(D, S, W, mode, cap, D.nodes[f - 1][2], s, c)
    ELSE IF Lev(S, s) > Lev(D, f) THEN
         LET t == SpecStep(S, W, mode, cap, s, c, 0) IN Align(D, S, W, mode, cap, f, t[1], t[2])
    ELSE <<f, s, c>>
(* zddLookahead: pass over states whose other branches all die *)
RECURSIVE ZLook(_, _, _, _, _, _, _)
ZLook(S, W, mode, cap, A, s, c) ==
    IF s < 2 \/ \E b \in 1..(A - 1) : SpecStep(S, W, mode, cap, s, c, b)[1] # 0 THEN <<s, c>>
    ELSE LET t == SpecStep(S, W, mode, cap, s, c, 0) IN ZLook(S, W, mode, cap, A, t[1], t[2])

(***************************************************************************)
(* A machine M = [f, D, S, W, cap, A, n] drives the merging specification S *)
(*   "build"        DdStructure(S)                                         *)
(*   "sub"          zddSubset of diagram D, and zddIntersection with D     *)
(*   "and"          bddAnd with D                                          *)
(*   "bunr","zunr"  bdd/zddUnreduction over n variables                    *)
(*   "zl"           zddLookahead                                           *)
(* Its positions are <<f, s, c, lev>>: state f of D, s of S, cost, level.  *)
(***************************************************************************)
Max2(a, b) == IF a > b THEN a ELSE b
Dead == <<0, 0, 0, -1>>
Pos(k, lev) == IF k[2] = 0 THEN Dead ELSE <<k[1], k[2], k[3], lev>>
MStart(M, mode) ==
    CASE M.f = "sub" -> LET k == Align(M.D, M.S, M.W, mode, M.cap, M.D.root, M.S.root, 0) IN Pos(k, Lev(M.S, k[2]))
      [] M.f = "and" -> IF M.D.root = 0 THEN Dead ELSE Pos(<<M.D.root, M.S.root, 0>>, Max2(Lev(M.D, M.D.root), Lev(M.S, M.S.root)))
      [] M.f \in {"bunr", "zunr"} -> Pos(<<0, M.S.root, 0>>, Max2(M.n, Lev(M.S, M.S.root)))
      [] M.f = "zl" -> LET k == ZLook(M.S, M.W, mode, M.cap, M.A, M.S.root, 0) IN Pos(<<0, k[1], k[2]>>, Lev(M.S, k[1]))
      [] OTHER -> Pos(<<0, M.S.root, 0>>, Lev(M.S, M.S.root))
MNext(M, mode, x, b) ==
    LET f == x[1]
        s == x[2]
        c == x[3]
        i == x[4]
        t == IF Lev(M.S, s) = i THEN SpecStep(M.S, M.W, mode, M.cap, s, c, b) ELSE <<s, c>>
    IN CASE M.f = "sub" -> LET k == Align(M.D, M.S, M.W, mode, M.cap, M.D.nodes[f - 1][b + 2], t[1], t[2])
                           IN Pos(k, Lev(M.S, k[2]))
         [] M.f = "and" -> LET g == IF Lev(M.D, f) = i THEN M.D.nodes[f - 1][b + 2] ELSE f
                           IN IF g = 0 THEN Dead ELSE Pos(<<g, t[1], t[2]>>, Max2(Lev(M.D, g), Lev(M.S, t[1])))
         [] M.f \in {"bunr", "zunr"} -> IF M.f = "zunr" /\ b > 0 /\ Lev(M.S, s) # i THEN Dead ELSE Pos(<<0, t[1], t[2]>>, i - 1)
         [] M.f = "zl" -> LET k == ZLook(M.S, M.W, mode, M.cap, M.A, t[1], t[2]) IN Pos(<<0, k[1], k[2]>>, Lev(M.S, k[1]))
         [] OTHER -> Pos(<<0, t[1], t[2]>>, Lev(M.S, t[1]))

Arrive(x, pre) == IF x[4] = -1 THEN {} ELSE { [lev |-> x[4], key |-> <<x[1], x[2]>>, c |-> x[3], pre |-> pre] }
(* lvl: the policy leaves states at the 1-terminal of S alone *)
LevelStep(M, mode, lvl, acc, i) ==
    LET mine == { x \in acc : x.lev = i }
        grp(k) == { x \in mine : x.key = k }
        left(k) == IF lvl /\ k[2] = 1 THEN UNION { x.pre : x \in grp(k) } ELSE MeetPre(mode, grp(k))
    IN (acc \ mine) \cup
       UNION { UNION { Arrive(MNext(M, mode, <<k[1], k[2], MinC(grp(k)), i>>, b), { p \cup {<<i, b>>} : p \in left(k) })
                       : b \in 0..(M.A - 1) } : k \in { x.key : x \in mine } }

(* the surviving decision paths; term: whether the 1-terminal merges too   *)
MergeRun(M, mode, lvl, term) ==
    LET x0 == MStart(M, mode)
        n == IF x0[4] < 0 THEN 0 ELSE x0[4]
        fin == FoldLeft(LAMBDA acc, i : LevelStep(M, mode, lvl, acc, i), Arrive(x0, {{}}), [i \in 1..n |-> n + 1 - i])
    IN IF fin = {} THEN {}
       ELSE IF term THEN MeetPre(mode, fin) ELSE UNION { x.pre : x \in fin }

CodeOfPath(A, p) == FoldSet(LAMBDA v, acc : acc + v[2] * Pow(A, v[1] - 1), 0, p)
=============================================================================
