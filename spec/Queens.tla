------------------------------- MODULE Queens -------------------------------
(***************************************************************************)
(* The placement problems of the N-queens application and the generic      *)
(* specifications it is built from (n-ary digits, interleaving, colouring).*)
(*                                                                         *)
(* Every event of a trace is one question to the implementation, answered  *)
(* by a diagram d (or by the number of solutions c only).  The answer must *)
(* be the family defined here.  Families are sets of sets of levels.       *)
(***************************************************************************)
EXTENDS DD, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l, bad
vars == <<cs, l, bad>>
Init == cs \in 1..Len(Trace) /\ l = 0 /\ bad = ""
Ev == Trace[cs].ev

Range1(n) == [k \in 1..n |-> k]
Abs(x) == IF x < 0 THEN -x ELSE x

(***************************************************************************)
(* Placements of n pieces on an n x n board, one per row; p[r] is the      *)
(* column (0..n-1) of the piece in row r (1..n).  Row n is decided first:  *)
(* cell (r, c) has level (r - 1) * n + c + 1.                              *)
(***************************************************************************)
Attack(q, p, r, c) == \E k \in 1..Len(p) : p[k] = c \/ (q /\ Abs(p[k] - c) = r - k)
Placements(n, q) ==
    FoldLeft(LAMBDA S, r : UNION { { Append(p, c) : c \in { x \in 0..(n - 1) : ~ Attack(q, p, r, x) } } : p \in S },
             { <<>> }, Range1(n))
Cells(n, p) == { (r - 1) * n + p[r] + 1 : r \in 1..n }
(* firstCol f >= 0 fixes the column of the top row, counted from the top level *)
Board(n, q, f) == { Cells(n, p) : p \in { x \in Placements(n, q) : f < 0 \/ x[n] = n - 1 - f } }

(* n colours, one full placement each, no two pieces in one cell; colour k *)
(* of cell x has level (x - 1) * n + k + 1; the top row is fixed           *)
Coloring(n, q, top(_)) ==
    LET P == Placements(n, q)
        put(k, p) == { (x - 1) * n + k + 1 : x \in Cells(n, p) }
        used(S) == { (lv - 1) \div n + 1 : lv \in S }
    IN FoldLeft(LAMBDA S, k : UNION { { s \cup put(k - 1, p) : p \in { x \in P : x[n] = top(k - 1) /\ used(s) \cap Cells(n, x) = {} } } : s \in S },
                { {} }, Range1(n))

(***************************************************************************)
(* Digits: len groups of m adjacent levels, at most / exactly one of each  *)
(***************************************************************************)
Digits(m, len, hot) ==
    FoldLeft(LAMBDA S, i : UNION { { s \cup {(i - 1) * m + j} : j \in 1..m } \cup (IF hot THEN {} ELSE {s}) : s \in S },
             { {} }, Range1(len))

(***************************************************************************)
(* Several families side by side: component k (0-based) has its level i at *)
(* (i - 1) * c + k + 1                                                     *)
(***************************************************************************)
SideBySide(F) ==
    LET c == Len(F) IN
    FoldLeft(LAMBDA S, k : UNION { { s \cup { (i - 1) * c + k : i \in x } : x \in F[k] } : s \in S }, { {} }, Range1(c))
OneColorEach(S, c, m) == { s \in S : /\ Cardinality(s) = m
                                     /\ \A i \in 1..m : Cardinality({ k \in 1..c : (i - 1) * c + k \in s }) = 1 }
AllSubsets(m) == SUBSET (1..m)

Want(e) ==
    CASE e.op = "queen" -> Board(e.n, TRUE, e.f)
      [] e.op = "rook"  -> Board(e.n, FALSE, e.f)
      [] e.op = "cqueen" -> Coloring(e.n, TRUE, LAMBDA k : k)
      [] e.op = "crook"  -> Coloring(e.n, FALSE, LAMBDA k : k)
      [] e.op = "dqueen" -> Coloring(e.n, TRUE, LAMBDA k : e.n - 1 - k)      \* the command's two-step construction
      [] e.op = "nary"   -> Digits(e.n - 1, e.m, FALSE)
      [] e.op = "onehot" -> Digits(e.n, e.m, TRUE)
      [] e.op = "inter"  -> SideBySide([k \in 1..Len(e.ds) |-> Sets(e.ds[k])])
      [] e.op = "interpos" -> SideBySide([k \in 1..e.n |-> IF k = e.f + 1 THEN Sets(e.ds[1]) ELSE AllSubsets(e.m)])
      [] e.op = "colored" -> OneColorEach(SideBySide([k \in 1..Len(e.ds) |-> Sets(e.ds[k])]), Len(e.ds), e.m)

Verdict(e) ==
    IF e.err # "" THEN "unexpected-error"
    ELSE IF e.hasd /\ ~ WellFormed(e.d, 2) THEN "malformed"
    ELSE LET w == Want(e) IN
         IF e.hasd /\ Sets(e.d) # w THEN "members"
         ELSE IF e.c >= 0 /\ e.c # Cardinality(w) THEN "number-of-members"
         ELSE ""

Next == bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs /\ bad' = Verdict(Ev[l + 1])
Accepted == bad = ""
=============================================================================
