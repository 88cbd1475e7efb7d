--------------------------------- MODULE DD ---------------------------------
(***************************************************************************)
(* Meaning of decision diagrams.                                           *)
(*                                                                         *)
(* A diagram (and likewise a top-down specification, which is a levelled   *)
(* state graph) is a record                                                *)
(*    [root : id, nodes : sequence of <<level, c0, c1, ..., c(A-1)>>]      *)
(* where id 0 is the 0-terminal, id 1 the 1-terminal and id k >= 2 denotes *)
(* nodes[k-1].  Rows are sorted by level, lowest first.                    *)
(*                                                                         *)
(* A total assignment of values 0..A-1 to the variables (levels) 1..n is   *)
(* encoded as the integer  sum_i  v_i * A^(i-1).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Lev(D, id) == IF id < 2 THEN 0 ELSE D.nodes[id - 1][1]

(* powers of A, tabulated once: Pow[A][i+1] = A^i *)
RECURSIVE PowOf(_, _)
PowOf(a, i) == IF i = 0 THEN 1 ELSE a * PowOf(a, i - 1)
PowTab == [a \in 2..10 |-> [i \in 1..(IF a = 2 THEN 21 ELSE IF a = 3 THEN 13 ELSE IF a = 4 THEN 11 ELSE 7) |-> PowOf(a, i - 1)]]
Pow(a, i) == PowTab[a][i + 1]

(***************************************************************************)
(* Every edge goes strictly downwards to an existing node; the root exists *)
(***************************************************************************)
WellFormed(D, A) ==
    LET m == Len(D.nodes) IN
    /\ D.root \in 0..(m + 1)
    /\ \A k \in 1..m :
          /\ Len(D.nodes[k]) = A + 1
          /\ D.nodes[k][1] >= 1
          /\ k < m => D.nodes[k][1] <= D.nodes[k + 1][1]
          /\ \A b \in 2..(A + 1) :
                LET c == D.nodes[k][b] IN
                /\ c \in 0..(m + 1)
                /\ Lev(D, c) < D.nodes[k][1]

(***************************************************************************)
(* ZDD meaning: a variable whose level is skipped has value 0.             *)
(***************************************************************************)
ZStep(A, acc, nd) ==
    Append(acc, UNION { LET s == (b * Pow(A, nd[1] - 1)) IN
                        { s + x : x \in acc[nd[b + 2] + 1] } : b \in 0..(A - 1) })
DenZ(D, A) == FoldLeft(LAMBDA acc, nd : ZStep(A, acc, nd), << {}, {0} >>, D.nodes)[D.root + 1]

(***************************************************************************)
(* BDD meaning over variables 1..n: a skipped variable is free.            *)
(***************************************************************************)
Ext(A, S, from, to) ==
    IF from >= to THEN S
    ELSE UNION { {x + y * Pow(A, from) : x \in S} : y \in 0..(Pow(A, to - from) - 1) }
BStep(D, A, acc, nd) ==
    Append(acc, UNION { LET c == nd[b + 2]
                            s == b * Pow(A, nd[1] - 1)
                        IN { s + x : x \in Ext(A, acc[c + 1], Lev(D, c), nd[1] - 1) }
                        : b \in 0..(A - 1) })
DenB(D, A, n) ==
    Ext(A, FoldLeft(LAMBDA acc, nd : BStep(D, A, acc, nd), << {}, {0} >>, D.nodes)[D.root + 1],
        Lev(D, D.root), n)

(***************************************************************************)
(* Structural meaning: the set of paths that reach the 1-terminal, each a  *)
(* set of <<level, value>> pairs for exactly the levels it visits.  Two    *)
(* diagrams with the same paths agree under every skipping convention.     *)
(***************************************************************************)
PStep(A, acc, nd) ==
    Append(acc, UNION { { {<<nd[1], b>>} \cup p : p \in acc[nd[b + 2] + 1] } : b \in 0..(A - 1) })
Paths(D, A) == FoldLeft(LAMBDA acc, nd : PStep(A, acc, nd), << {}, {{}} >>, D.nodes)[D.root + 1]

(* ZDD meaning as a set of sets of levels (binary diagrams of any height) *)
SStep(acc, nd) == Append(acc, acc[nd[2] + 1] \cup { x \cup {nd[1]} : x \in acc[nd[3] + 1] })
Sets(D) == FoldLeft(LAMBDA acc, nd : SStep(acc, nd), << {}, {{}} >>, D.nodes)[D.root + 1]

(* the digits of code x as a function on 1..n *)
Digit(A, x, i) == (x \div Pow(A, i - 1)) % A

(* set of levels with a nonzero value, for ZDD itemsets (binary) *)
Items(x, n) == { i \in 1..n : Digit(2, x, i) = 1 }
CodeOf(S) == FoldSet(LAMBDA i, acc : acc + Pow(2, i - 1), 0, S)

(***************************************************************************)
(* Liveness: Alive[id+1] iff some path leads to the 1-terminal.            *)
(***************************************************************************)
AliveTab(D, A) ==
    FoldLeft(LAMBDA acc, nd : Append(acc, \E b \in 2..(A + 1) : acc[nd[b] + 1]),
             << FALSE, TRUE >>, D.nodes)

(***************************************************************************)
(* Level index of the rows: the levels present, highest first, and the row *)
(* numbers of each.                                                        *)
(***************************************************************************)
LevelsOf(D) == { D.nodes[k][1] : k \in 1..Len(D.nodes) }
RowsAt(D, i) == { k \in 1..Len(D.nodes) : D.nodes[k][1] = i }

(* ids reachable from the root (including terminals) *)
ReachStep(D, A, R, i) ==
    R \cup UNION { { D.nodes[id - 1][b] : b \in 2..(A + 1) } : id \in { x \in R : x >= 2 /\ D.nodes[x - 1][1] = i } }
Reach(D, A) ==
    FoldLeft(LAMBDA R, i : ReachStep(D, A, R, i), {D.root}, Reverse(SetToSortSeq(LevelsOf(D), <)))
ReachNodes(D, A) == { x \in Reach(D, A) : x >= 2 }

(***************************************************************************)
(* Simulation of a specification S by a diagram D: pairs of corresponding  *)
(* live states/nodes reached along the same decisions.  D represents S     *)
(* with one node per state iff live states correspond to live nodes of the *)
(* same level and the correspondence is a function.                        *)
(***************************************************************************)
PairStep(S, D, A, aS, aD, P, i) ==
    P \cup UNION { { << S.nodes[p[1] - 1][b], D.nodes[p[2] - 1][b] >> : b \in 2..(A + 1) }
                   : p \in { q \in P : /\ q[1] >= 2 /\ q[2] >= 2
                                       /\ S.nodes[q[1] - 1][1] = i
                                       /\ D.nodes[q[2] - 1][1] = i
                                       /\ aS[q[1] + 1] /\ aD[q[2] + 1] } }
PairsOf(S, D, A, aS, aD) ==
    FoldLeft(LAMBDA P, i : PairStep(S, D, A, aS, aD, P, i), {<<S.root, D.root>>},
             Reverse(SetToSortSeq(LevelsOf(S), <)))
SamePaths(S, D, A) ==       \* same accepted paths, level by level
    LET aS == AliveTab(S, A)
        aD == AliveTab(D, A)
        P == PairsOf(S, D, A, aS, aD)
    IN \A p \in P : /\ aS[p[1] + 1] = aD[p[2] + 1]
                    /\ aS[p[1] + 1] => /\ Lev(S, p[1]) = Lev(D, p[2])
                                       /\ (p[1] < 2) = (p[2] < 2)
Represents(S, D, A) ==      \* additionally: one node per state
    LET aS == AliveTab(S, A)
        aD == AliveTab(D, A)
        P == PairsOf(S, D, A, aS, aD)
        L == { p \in P : aS[p[1] + 1] }
    IN /\ \A p \in P : /\ aS[p[1] + 1] = aD[p[2] + 1]
                       /\ aS[p[1] + 1] => /\ Lev(S, p[1]) = Lev(D, p[2])
                                          /\ (p[1] < 2) = (p[2] < 2)
       /\ Cardinality({ p[1] : p \in L }) = Cardinality(L)
Isomorphic(S, D, A) ==      \* same rooted graph, up to renaming of the nodes
    LET aS == [k \in 1..(Len(S.nodes) + 2) |-> TRUE]
        aD == [k \in 1..(Len(D.nodes) + 2) |-> TRUE]
        P == PairsOf(S, D, A, aS, aD)
    IN /\ \A p \in P : /\ Lev(S, p[1]) = Lev(D, p[2])
                       /\ (p[1] < 2 \/ p[2] < 2) => p[1] = p[2]
       /\ Cardinality({ p[1] : p \in P }) = Cardinality(P)
       /\ Cardinality({ p[2] : p \in P }) = Cardinality(P)

Bisimilar(S, D, A) ==       \* same decision tree when unfolded
    LET aS == [k \in 1..(Len(S.nodes) + 2) |-> TRUE]
        aD == [k \in 1..(Len(D.nodes) + 2) |-> TRUE]
        P == PairsOf(S, D, A, aS, aD)
    IN \A p \in P : /\ Lev(S, p[1]) = Lev(D, p[2])
                    /\ (p[1] < 2 \/ p[2] < 2) => p[1] = p[2]

(***************************************************************************)
(* Product of two graphs under a binary operation, as a graph: the oracle  *)
(* for set/Boolean operations on diagrams too large to enumerate.          *)
(* op \in {"int", "uni"} (ZDD skipping) or {"and", "or"} (BDD skipping).   *)
(***************************************************************************)
PNorm(op, p) ==
    IF op \in {"int", "and"} THEN
        IF p[1] = 0 \/ p[2] = 0 THEN <<0, 0>> ELSE IF p[1] = 1 /\ p[2] = 1 THEN <<1, 1>> ELSE p
    ELSE IF p[1] < 2 /\ p[2] < 2 THEN (IF p[1] = 1 \/ p[2] = 1 THEN <<1, 1>> ELSE <<0, 0>>)
    ELSE IF op = "or" /\ (p[1] = 1 \/ p[2] = 1) THEN <<1, 1>> ELSE p
PLev(S, T, p) == LET a == Lev(S, p[1]) b == Lev(T, p[2]) IN IF a > b THEN a ELSE b
PChild(S, T, op, p, i, b) ==
    LET z == op \in {"int", "uni"}
        c1 == IF p[1] >= 2 /\ Lev(S, p[1]) = i THEN S.nodes[p[1] - 1][b + 2] ELSE IF z /\ b > 0 THEN 0 ELSE p[1]
        c2 == IF p[2] >= 2 /\ Lev(T, p[2]) = i THEN T.nodes[p[2] - 1][b + 2] ELSE IF z /\ b > 0 THEN 0 ELSE p[2]
    IN PNorm(op, <<c1, c2>>)
(* position of the pair p in the lexicographically sorted stretch seq[lo..hi];  *)
(* the assertion makes a wrong order an error, never a wrong answer.         *)
RECURSIVE BSearch(_, _, _, _)
BSearch(seq, p, lo, hi) ==
    IF lo > hi THEN Assert(FALSE, <<"BSearch", p>>)
    ELSE LET m == (lo + hi) \div 2
             q == seq[m]
         IN IF q = p THEN m
            ELSE IF q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2]) THEN BSearch(seq, p, m + 1, hi)
            ELSE BSearch(seq, p, lo, m - 1)
Product(S, T, op, A) ==
    LET lv == SetToSortSeq(LevelsOf(S) \cup LevelsOf(T), <)
        r0 == PNorm(op, <<S.root, T.root>>)
        P == FoldLeft(LAMBDA Q, i : Q \cup { PChild(S, T, op, p, i, b) : p \in { q \in Q : PLev(S, T, q) = i }, b \in 0..(A - 1) },
                      {r0}, Reverse(lv))
        grp == [k \in 1..Len(lv) |-> SetToSeq({ p \in P : PLev(S, T, p) = lv[k] })]
        ord == FoldLeft(LAMBDA acc, g : acc \o g, <<>>, grp)
        off == FoldLeft(LAMBDA acc, g : Append(acc, acc[Len(acc)] + Len(g)), <<0>>, grp)
        mx == IF lv = <<>> THEN 0 ELSE lv[Len(lv)]
        at == FoldLeft(LAMBDA acc, k : [acc EXCEPT ![lv[k]] = k], [i \in 1..mx |-> 0], [k \in 1..Len(lv) |-> k])
        lo == [i \in 1..mx |-> IF at[i] = 0 THEN 1 ELSE off[at[i]] + 1]
        hi == [i \in 1..mx |-> IF at[i] = 0 THEN 0 ELSE off[at[i] + 1]]
        id(p) == IF p = <<0, 0>> THEN 0 ELSE IF p = <<1, 1>> THEN 1
                 ELSE LET i == PLev(S, T, p) IN BSearch(ord, p, lo[i], hi[i]) + 1
    IN [root |-> id(r0),
        nodes |-> [k \in 1..Len(ord) |->
            LET i == PLev(S, T, ord[k]) IN
            [b \in 1..(A + 1) |-> IF b = 1 THEN i ELSE id(PChild(S, T, op, ord[k], i, b - 2))]]]

(***************************************************************************)
(* Node deletion rules and canonical forms.                                *)
(***************************************************************************)
Redundant(kind, ch) ==      \* ch : sequence of children
    CASE kind = "b" -> \A b \in 2..Len(ch) : ch[b] = ch[1]
      [] kind = "z" -> \A b \in 2..Len(ch) : ch[b] = <<0, 0>>
      [] kind = "q" -> \A b \in 1..Len(ch) : ch[b] = <<0, 0>>
RedundantRow(kind, nd) ==
    CASE kind = "b" -> \A b \in 3..Len(nd) : nd[b] = nd[2]
      [] kind = "z" -> \A b \in 3..Len(nd) : nd[b] = 0
      [] kind = "q" -> \A b \in 2..Len(nd) : nd[b] = 0

(* no two rows are equal and no row is deletable *)
IsReduced(D, kind) ==
    /\ Cardinality(ToSet(D.nodes)) = Len(D.nodes)
    /\ \A k \in 1..Len(D.nodes) : ~ RedundantRow(kind, D.nodes[k])

(* canonical form: per level the set of canonical child tuples, plus the    *)
(* canonical name <<level, index>> of the root                             *)
CanonStep(D, A, kind, acc, i) ==
    LET rows == SetToSortSeq(RowsAt(D, i), <)
        m == Len(rows)
        tup == [j \in 1..m |-> [b \in 1..A |-> acc.map[D.nodes[rows[j]][b + 1] + 1]]]
        keep == { j \in 1..m : ~ Redundant(kind, tup[j]) }
        S == { tup[j] : j \in keep }
        \* equal tuples are adjacent in the sorted order, so one scan names them
        srt == SetToSeq({ <<tup[j], j>> : j \in keep })
        scan == FoldLeft(LAMBDA z, x : IF z.n > 0 /\ z.t = x[1]
                                       THEN [z EXCEPT !.o = Append(@, <<x[2], z.n>>)]
                                       ELSE [t |-> x[1], n |-> z.n + 1, o |-> Append(z.o, <<x[2], z.n + 1>>)],
                         [t |-> <<>>, n |-> 0, o |-> <<>>], srt)
        pos == SetToSeq(ToSet(scan.o) \cup { <<j, 0>> : j \in (1..m) \ keep })
        ok == Assert(scan.n = Cardinality(S) /\ \A j \in 1..m : pos[j][1] = j, "CanonStep order")
        nm == [j \in 1..m |-> IF ok /\ j \in keep THEN <<i, pos[j][2]>> ELSE tup[j][1]]
    IN [map |-> acc.map \o nm, rows |-> Append(acc.rows, <<i, S>>)]
Canon(D, A, kind) ==
    LET r == FoldLeft(LAMBDA acc, i : CanonStep(D, A, kind, acc, i),
                      [map |-> << <<0, 0>>, <<0, 1>> >>, rows |-> <<>>],
                      SetToSortSeq(LevelsOf(D), <))
    IN [root |-> r.map[D.root + 1], rows |-> SelectSeq(r.rows, LAMBDA x : x[2] # {})]

(***************************************************************************)
(* Exact counting with naturals of any size: little-endian base 10000.     *)
(***************************************************************************)
BASE == 10000
Norm(s) == LET nz == { k \in 1..Len(s) : s[k] # 0 } IN IF nz = {} THEN <<>> ELSE SubSeq(s, 1, Max(nz))
Dig(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Add(x, y) ==
    LET n == (IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) + 1
        r == FoldLeft(LAMBDA acc, k : LET t == Dig(x, k) + Dig(y, k) + acc.c
                                      IN [c |-> t \div BASE, d |-> Append(acc.d, t % BASE)],
                      [c |-> 0, d |-> <<>>], [k \in 1..n |-> k])
    IN Norm(r.d)
MulSmall(x, m) ==        \* m < 100000
    LET r == FoldLeft(LAMBDA acc, k : LET t == Dig(x, k) * m + acc.c
                                      IN [c |-> t \div BASE, d |-> Append(acc.d, t % BASE)],
                      [c |-> 0, d |-> <<>>], [k \in 1..(Len(x) + 2) |-> k])
    IN Norm(r.d)
RECURSIVE MulPow(_, _, _)
MulPow(x, a, e) == IF e = 0 THEN x ELSE MulPow(MulSmall(x, a), a, e - 1)
RECURSIVE FromInt(_)
FromInt(v) == IF v = 0 THEN <<>> ELSE <<v % BASE>> \o FromInt(v \div BASE)
One == <<1>>
(* number of accepted paths (ZDD cardinality) *)
CountZ(D, A) ==
    FoldLeft(LAMBDA acc, nd : Append(acc, FoldLeft(LAMBDA s, b : Add(s, acc[nd[b + 1] + 1]), <<>>, [b \in 1..A |-> b])),
             << <<>>, One >>, D.nodes)[D.root + 1]
(* number of satisfying assignments of n variables (BDD cardinality) *)
CountB(D, A, n) ==
    LET t == FoldLeft(LAMBDA acc, nd :
                 Append(acc, FoldLeft(LAMBDA s, b :
                     LET c == nd[b + 1] IN Add(s, MulPow(acc[c + 1], A, nd[1] - 1 - Lev(D, c))),
                     <<>>, [b \in 1..A |-> b])),
                 << <<>>, One >>, D.nodes)
    IN MulPow(t[D.root + 1], A, n - Lev(D, D.root))
=============================================================================
