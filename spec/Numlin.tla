------------------------------- MODULE Numlin -------------------------------
(***************************************************************************)
(* Number-link puzzles: boards, and the link sets that solve them.         *)
(*                                                                         *)
(* State:  B = [m, n : rows, columns,  num : m x n numbers (0 = none),     *)
(*              H : set of <<i,j>> linked to <<i,j+1>>,                    *)
(*              V : set of <<i,j>> linked to <<i+1,j>>]                    *)
(* Actions: reading and writing a board, transposing it, setting the       *)
(* horizontal links, completing the vertical ones, filling in numbers,     *)
(* drawing it; questions: the families represented by the specifications,  *)
(* and whole runs of the ddnumlin command.                                 *)
(***************************************************************************)
EXTENDS DD, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l, B, bad
vars == <<cs, l, B, bad>>
Nil == [m |-> 0, n |-> 0, num |-> <<>>, H |-> {}, V |-> {}]
Init == cs \in 1..Len(Trace) /\ l = 0 /\ B = Nil /\ bad = ""
Ev == Trace[cs].ev
Range1(k) == [i \in 1..k |-> i]
B01(b) == IF b THEN 1 ELSE 0
Cells(b) == (1..b.m) \X (1..b.n)

(***************************************************************************)
(* Reading: cell j of line i, missing cells are blank, extra ones ignored; *)
(* -1 stands for a blank sign                                              *)
(***************************************************************************)
ReadBoard(e) ==
    [m |-> e.rows, n |-> e.cols, H |-> {}, V |-> {},
     num |-> TLCEval([i \in 1..e.rows |-> [j \in 1..e.cols |->
        IF i <= Len(e.lines) /\ j <= Len(e.lines[i]) THEN (IF e.lines[i][j] < 0 THEN 0 ELSE e.lines[i][j]) ELSE 0]])]
Transposed(b) ==
    [m |-> b.n, n |-> b.m, num |-> TLCEval([i \in 1..b.n |-> [j \in 1..b.m |-> b.num[j][i]]]),
     H |-> { <<x[2], x[1]>> : x \in b.V }, V |-> { <<x[2], x[1]>> : x \in b.H }]

(***************************************************************************)
(* Vertical links follow from the horizontal ones: going down, a cell with *)
(* exactly one end so far (its number counts as one) continues downwards.  *)
(***************************************************************************)
EndsAt(num, H, up, i, j) ==     \* ends at cell (i,j), except downwards
    B01(num[i][j] # 0) + B01(<<i, j - 1>> \in H) + B01(<<i, j>> \in H) + B01(j \in up)
DownOf(b, H, up, i) == { j \in 1..b.n : EndsAt(b.num, H, up, i, j) = 1 }
Vertical(b, H) ==
    LET f == FoldLeft(LAMBDA a, i : LET d == DownOf(b, H, a.up, i) IN
                                    [up |-> d, V |-> a.V \cup { <<i, j>> : j \in d }],
                      [up |-> {}, V |-> {}], Range1(b.m - 1))
    IN f.V

(* degrees and drawing *)
Dirs(b, i, j) == << B01(<<i, j - 1>> \in b.H), B01(<<i, j>> \in b.H), B01(<<i - 1, j>> \in b.V), B01(<<i, j>> \in b.V) >>
Code(b, i, j) == LET d == Dirs(b, i, j) IN d[1] + 2 * d[2] + 4 * d[3] + 8 * d[4]
(* what is drawn: a connector (negative) where two or more links meet, else the number *)
Draw(b) == TLCEval([i \in 1..b.m |-> [j \in 1..b.n |->
               LET c == Code(b, i, j) IN IF c \in {0, 1, 2, 4, 8} THEN b.num[i][j] ELSE -c]])

(* components of the linked cells: cell |-> representative *)
Comp(b) ==
    LET join(f, x, y) == IF f[x] = f[y] THEN f ELSE LET p == f[x] q == f[y] IN TLCEval([z \in DOMAIN f |-> IF f[z] = q THEN p ELSE f[z]])
        row(f, i) == FoldLeft(LAMBDA g, j : LET h == IF <<i, j>> \in b.H THEN join(g, <<i, j>>, <<i, j + 1>>) ELSE g
                                            IN IF <<i, j>> \in b.V /\ i < b.m THEN join(h, <<i, j>>, <<i + 1, j>>) ELSE h,
                              f, Range1(b.n))
    IN FoldLeft(LAMBDA f, i : row(f, i), TLCEval([x \in Cells(b) |-> x]), Range1(b.m))

(***************************************************************************)
(* Solutions.  Row by row, every choice of horizontal links in which no    *)
(* cell has more than two ends and none is left over below the last row.   *)
(* A link set is a sequence of rows, each the set of columns j whose cell  *)
(* is linked to the next one.                                              *)
(***************************************************************************)
AsSet(h) == UNION { { <<i, j>> : j \in h[i] } : i \in 1..Len(h) }
Ends(num, r, up, i, j) == B01(num[i][j] # 0) + B01(j - 1 \in r) + B01(j \in r) + B01(j \in up)
RowsFor(b, i, up) ==    \* <<links of row i, columns that continue downwards>>
    { <<r, { j \in 1..b.n : Ends(b.num, r, up, i, j) = 1 }>> :
        r \in { q \in SUBSET (1..(b.n - 1)) :
                  \A j \in 1..b.n : LET d == Ends(b.num, q, up, i, j) IN d <= 2 /\ (i = b.m => d # 1) } }
Consistent(b) ==        \* all link sets with degrees 0 or 2
    LET step(S, i) == UNION { { << Append(s[1], r[1]), r[2] >> : r \in RowsFor(b, i, s[2]) } : s \in S }
    IN { s[1] : s \in FoldLeft(LAMBDA S, i : step(S, i), { << <<>>, {} >> }, Range1(b.m)) }
Linked(b, h) == LET H == AsSet(h) IN [b EXCEPT !.H = H, !.V = Vertical(b, H)]
Blank(b) == { x \in Cells(b) : b.num[x[1]][x[2]] = 0 /\ Code(b, x[1], x[2]) = 0 }
(* in the first i rows, whatever is finished is a path between equal numbers *)
Finished(b, h, down) ==
    LET i == Len(h)
        q == [b EXCEPT !.m = i, !.H = AsSet(h), !.V = Vertical([b EXCEPT !.m = i], AsSet(h))]
        f == Comp(q)
        used == { x \in Cells(q) : Code(q, x[1], x[2]) # 0 \/ (x[1] = i /\ x[2] \in down) }
        open == { f[<<i, j>>] : j \in down }
    IN \A r \in { f[x] : x \in used } \ open :
          LET ends == { x \in Cells(q) : f[x] = r /\ b.num[x[1]][x[2]] # 0 } IN
          Cardinality(ends) = 2 /\ Cardinality({ b.num[x[1]][x[2]] : x \in ends }) = 1
Solutions(b, k) ==
    LET step(S, i) == UNION { { t \in { << Append(s[1], r[1]), r[2] >> : r \in RowsFor(b, i, s[2]) } : Finished(b, t[1], t[2]) } : s \in S }
        A == { s[1] : s \in FoldLeft(LAMBDA S, i : step(S, i), { << <<>>, {} >> }, Range1(b.m)) }
    IN IF k < 0 THEN A ELSE { h \in A : Cardinality(Blank(Linked(b, h))) <= k }

(***************************************************************************)
(* Detours, which the default mode leaves out.                             *)
(***************************************************************************)
Square(b, i, j) ==      \* links around the unit square whose upper left cell is (i,j)
    B01(<<i, j>> \in b.H) + B01(<<i + 1, j>> \in b.H) + B01(<<i, j>> \in b.V) + B01(<<i, j + 1>> \in b.V)
UTurn(b) == \E i \in 1..(b.m - 1), j \in 1..(b.n - 1) : Square(b, i, j) >= 3
(* a corner below a blank cell, which could be cut *)
CutCorner(b) ==
    \E i \in 1..(b.m - 1), j \in 1..(b.n - 1) :
       /\ <<i + 1, j>> \in b.H
       /\ \/ <<i, j>> \in b.V /\ <<i, j + 1>> \in Blank(b)
          \/ <<i, j + 1>> \in b.V /\ <<i, j>> \in Blank(b)
(* a roof with legs at columns j, k and nothing supporting it in between *)
Roof(b) ==
    \E i \in 1..(b.m - 1), j \in 1..b.n, k \in 1..b.n :
       /\ j < k /\ <<i, j>> \in b.V /\ <<i, k>> \in b.V
       /\ \A x \in j..(k - 1) : <<i, x>> \in b.H /\ <<i + 1, x>> \notin b.H
       /\ \A x \in (j + 1)..(k - 1) : b.num[i + 1][x] = 0
Detour(b) == UTurn(b) \/ CutCorner(b) \/ Roof(b)

Level(b, x) == b.m * (b.n - 1) - (x[1] - 1) * (b.n - 1) - (x[2] - 1)
Coded(b, h) == { Level(b, x) : x \in AsSet(h) }
Family(b, kind, k) ==
    CASE kind = "degree" -> Consistent(b)
      [] kind = "numlin" -> Solutions(b, k)
      [] kind = "best"   -> { H \in Solutions(b, k) : ~ Detour(Linked(b, H)) }

FamilyVerdict(e) ==
    IF ~ WellFormed(e.d, 2) THEN "malformed"
    ELSE IF Sets(e.d) # { Coded(B, H) : H \in Family(B, e.kind, e.k) } THEN "members" ELSE ""

(***************************************************************************)
(* The command.  The wider side is laid along the rows.                    *)
(***************************************************************************)
CliVerdict(e) ==
    LET b0 == ReadBoard(e)
        turned == b0.n = 1 \/ (b0.m > 1 /\ b0.m < b0.n)
        b == IF turned THEN Transposed(b0) ELSE b0
        F == Family(b, IF e.all THEN "numlin" ELSE "best", e.k)
        show(H) == Draw(LET q == Linked(b, H) IN IF turned THEN Transposed(q) ELSE q)
        n == Cardinality(F)
        p == IF e.m < n THEN e.m ELSE n
        drawn == { e.boards[i] : i \in 1..Len(e.boards) }
        images == { show(H) : H \in F }
    IN IF e.badcli THEN (IF e.err THEN "" ELSE "error-not-reported")
       ELSE IF e.err THEN "unexpected-error"
       ELSE IF e.quiz # Draw(b0) THEN "quiz"
       ELSE IF e.c # n THEN "number-of-solutions"
       ELSE IF Len(e.boards) # p THEN "number-of-boards"
       ELSE IF ~ (drawn \subseteq images) THEN "not-a-solution"
       ELSE IF Cardinality(images) = n /\ Cardinality(drawn) # p THEN "printed-twice"
       ELSE IF p = n /\ drawn # images THEN "solution-missing"
       ELSE IF e.m # 0 /\ e.more # n - p THEN "more-solutions"
       ELSE ""

(***************************************************************************)
(* readdas.pl: a board from the format of the DA Symposium: the size,      *)
(* lines joining two cells (numbered in order), rows of two-digit numbers  *)
Longer(q, n, x) == IF Len(q) >= n THEN q ELSE q \o [i \in 1..(n - Len(q)) |-> x]
DasPut(bd, x, y, v) == LET g == Longer(bd, y + 1, <<>>) IN [g EXCEPT ![y + 1] = [Longer(@, x + 1, 0) EXCEPT ![x + 1] = v]]
DasLine(s, t) ==
    CASE t[1] = "size" -> [s EXCEPT !.n = t[2], !.m = t[3]]
      [] t[1] = "line" -> [s EXCEPT !.max = @ + 1, !.bd = DasPut(DasPut(@, t[4], t[5], s.max + 1), t[2], t[3], s.max + 1)]
      [] t[1] = "row" -> LET q == Tail(t)
                             big == CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : x >= y
                         IN [s EXCEPT !.n = IF @ < Len(q) THEN Len(q) ELSE @, !.max = IF @ < big THEN big ELSE @, !.bd = Append(@, q)]
      [] OTHER -> s
DasVerdict(e) ==
    LET s == FoldLeft(DasLine, [n |-> 0, m |-> 0, max |-> 0, bd |-> <<>>], e.src)
        m == IF s.m < Len(s.bd) THEN Len(s.bd) ELSE s.m
        cell(i, j) == IF i <= Len(s.bd) /\ j <= Len(s.bd[i]) THEN s.bd[i][j] ELSE 0
    IN IF s.n < 1 \/ m < 1 THEN (IF e.err THEN "" ELSE "error-not-reported")
       ELSE IF e.err THEN "unexpected-error"
       ELSE IF e.out # << <<s.n, m>> >> \o [i \in 1..m |-> [j \in 1..s.n |-> cell(i, j)]] THEN "converted-board"
       ELSE ""

(***************************************************************************)
Same(e) == [m |-> e.rows, n |-> e.cols, num |-> e.num, H |-> ToSet(e.h), V |-> ToSet(e.v)]
(* the board after filling: every cell linked to a number has one *)
FillOK(b, c) ==
    LET f == Comp(b)
        nums(x) == { b.num[y[1]][y[2]] : y \in { z \in Cells(b) : f[z] = f[x] } } \ {0}
    IN /\ [c EXCEPT !.num = b.num] = b
       /\ \A x \in Cells(b) : LET v == c.num[x[1]][x[2]] IN
             IF b.num[x[1]][x[2]] # 0 THEN v = b.num[x[1]][x[2]]
             ELSE IF nums(x) = {} THEN v = 0 ELSE v \in nums(x)
Step ==
    LET e == Ev[l + 1]
        to(b, name) == B' = b /\ bad' = (IF e.err THEN "unexpected-error" ELSE IF Same(e) = b THEN "" ELSE name)
        ask(v) == B' = B /\ bad' = (IF e.err THEN "unexpected-error" ELSE v)
    IN CASE e.op = "read" -> IF e.illegal THEN B' = B /\ bad' = (IF e.err THEN "" ELSE "error-not-reported")
                             ELSE IF e.err THEN B' = B /\ bad' = "unexpected-error"
                             ELSE to(ReadBoard([e EXCEPT !.rows = e.rows0, !.cols = e.cols0]), "read")
         [] e.op = "transpose" -> to(Transposed(B), "transpose")
         [] e.op = "links" -> to([B EXCEPT !.H = ToSet(e.set)], "links")
         [] e.op = "vertical" -> to([B EXCEPT !.V = Vertical(B, B.H)], "vertical-links")
         [] e.op = "fill" -> LET c == Same(e) IN B' = c /\ bad' = IF e.err THEN "unexpected-error" ELSE IF FillOK(B, c) THEN "" ELSE "fill"
         [] e.op = "write" -> ask(IF e.text = << <<B.n, B.m>> >> \o B.num THEN "" ELSE "write")
         [] e.op = "print" -> ask(IF e.board = Draw(B) THEN "" ELSE "print")
         [] e.op = "fam" -> ask(FamilyVerdict(e))
         [] e.op = "das" -> B' = B /\ bad' = DasVerdict(e)
         [] e.op = "cli" -> B' = B /\ bad' = CliVerdict(e)

Next == bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs /\ Step
Accepted == bad = ""
=============================================================================
