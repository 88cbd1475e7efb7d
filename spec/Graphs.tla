------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graphs and the families of edge sets that the graph specifications      *)
(* denote.                                                                 *)
(*                                                                         *)
(* State:  E  : the edges added so far, in order (pairs of vertex names,   *)
(*              possibly repeated in either direction)                     *)
(*         C  : vertex name |-> colour                                     *)
(* Actions: addEdge, setColor, update, clearColors, setDefaultPathColor,   *)
(* reading edge / adjacency / group files; observations: the derived data  *)
(* of the graph, and diagrams built from specifications over it.           *)
(*                                                                         *)
(* The oracle for a family is the set of ALL edge subsets that satisfy its *)
(* definition (Member below), enumerated; for graphs too large for that,   *)
(* the number of members computed by the frontier process Dp, which is     *)
(* itself checked against the enumeration on every small graph.            *)
(***************************************************************************)
EXTENDS DD, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
MAXENUM == 13           \* enumerate subsets of up to this many edges

VARIABLES cs, l, E, C, pend, bad
vars == <<cs, l, E, C, pend, bad>>
Init == /\ cs \in 1..Len(Trace) /\ l = 0 /\ E = <<>> /\ C = <<>> /\ pend = FALSE /\ bad = ""
Ev == Trace[cs].ev

FirstFail(q) == LET f == SelectSeq(q, LAMBDA c : ~ c[2]) IN IF f = <<>> THEN "" ELSE f[1][1]
Set(f, k, v) == (k :> v) @@ f
Range1(n) == [k \in 1..n |-> k]

(***************************************************************************)
(* Derived data                                                            *)
(***************************************************************************)
Same(e, f) == {e[1], e[2]} = {f[1], f[2]}
Unique(es) == FoldLeft(LAMBDA u, e : IF \E k \in 1..Len(u) : Same(u[k], e) THEN u ELSE Append(u, e), <<>>, es)
VertsOf(U) == UNION { {U[k][1], U[k][2]} : k \in 1..Len(U) }
Inc(U, v) == { k \in 1..Len(U) : v = U[k][1] \/ v = U[k][2] }
LastE(U, v) == Max(Inc(U, v))
SecondLast(U, v) == LET s == Inc(U, v) \ {Max(Inc(U, v))} IN IF s = {} THEN 0 ELSE Max(s)
FirstE(U, v) == Min(Inc(U, v))
ColorsUsed(c) == { c[v] : v \in DOMAIN c }
ClassOf(c, k) == { v \in DOMAIN c : c[v] = k }
ColOf(c, v) == IF v \in DOMAIN c THEN c[v] ELSE -1
B01(b) == IF b THEN 1 ELSE 0

InfoVerdict(e) ==
    LET U == Unique(E)
        n == Len(U)
        V == VertsOf(U)
        m == Cardinality(V)
        \* the numbering the graph chose
        num == [v \in V |-> CHOOSE k \in 1..m : e.vn[k] = v]
        lst == [v \in V |-> LastE(U, v)]
        v0(a) == Min({ num[v] : v \in { w \in V : lst[w] >= a } })
        lo(a) == IF num[U[a][1]] <= num[U[a][2]] THEN U[a][1] ELSE U[a][2]
        hi(a) == IF num[U[a][1]] <= num[U[a][2]] THEN U[a][2] ELSE U[a][1]
        cols == ColorsUsed(C)
        \* first edge index by which every colour has occurred
        seen == IF cols = {} THEN 1 ELSE Max({ Min({ FirstE(U, v) : v \in ClassOf(C, k) }) : k \in cols })
        firstOf(k) == Min({ num[v] : v \in ClassOf(C, k) })
        rank(k) == Cardinality({ j \in cols : firstOf(j) <= firstOf(k) })
    IN FirstFail(<<
        <<"edge-count", e.n = n>>,
        <<"vertex-count", e.m = m /\ Len(e.vn) = m>>,
        <<"vertex-names", ToSet(e.vn) = V>>,
        <<"vertex-lookup", \A k \in 1..Len(e.vn) : e.gv[k] = k /\ e.lb[k] = e.vn[k]>>,
        <<"leaving-order", e.m # m \/ ToSet(e.vn) # V \/ \A v, w \in V : num[v] < num[w] => lst[v] <= lst[w]>>,
        <<"edge-names", e.n # n \/ \A a \in 1..n : e.names[a] = U[a]>>,
        <<"edge-lookup", \A a \in 1..Len(e.ge) : e.ge[a] = <<a - 1, a - 1, a - 1, a - 1, 1>> >>,
        <<"edge-info", e.n # n \/ e.m # m \/ ToSet(e.vn) # V \/
            \A a \in 1..n : e.info[a] = << v0(a), num[lo(a)], num[hi(a)],
                  B01(lst[lo(a)] = a), B01(lst[hi(a)] = a),
                  B01(SecondLast(U, lo(a)) = a), B01(SecondLast(U, hi(a)) = a),
                  B01(a >= seen), B01(a = n) >> >>,
        <<"adjacency", e.n # n \/ e.m # m \/ ToSet(e.vn) # V \/ ~ e.hasadj \/
            /\ ToSet(e.adj) = { << num[U[a][1]], num[U[a][2]], a - 1 >> : a \in 1..n }
                          \cup { << num[U[a][2]], num[U[a][1]], a - 1 >> : a \in 1..n } >>,
        <<"frontier-size", e.n # n \/ e.m # m \/ ToSet(e.vn) # V \/
            e.maxf = (IF n = 0 THEN 0 ELSE Max({ num[hi(a)] - v0(a) + 1 : a \in 1..n })) >>,
        <<"colour-count", e.ncol = Cardinality(cols)>>,
        <<"colour-pairs", e.pairs = (cols # {} /\ \A k \in cols : Cardinality(ClassOf(C, k)) = 2)>>,
        <<"colour-numbers", e.m # m \/ ToSet(e.vn) # V \/
            \A v \in V : e.cn[num[v]] = (IF v \in DOMAIN C THEN rank(C[v]) ELSE 0)>>,
        <<"virtual-mates", e.m # m \/ ToSet(e.vn) # V \/
            \A v \in V : e.vm[num[v]] =
                (IF v \in DOMAIN C /\ Cardinality(ClassOf(C, C[v])) = 2
                 THEN num[CHOOSE w \in ClassOf(C, C[v]) : w # v] ELSE 0)>>,
        <<"probes", \A k \in 1..Len(e.probes) : e.probes[k] = 1>>,
        <<"dump", /\ Len(e.dot) = n /\ e.dotv = m
                  /\ \A a \in 1..n : Same(e.dot[a], U[a])
                  /\ ToSet(e.filled) = DOMAIN C>> >>)

(***************************************************************************)
(* Subgraphs.  A subset of the n edges is coded as sum of 2^(level-1),     *)
(* where edge a (1..n) is decided at level n - a + 1.                      *)
(***************************************************************************)
Taken(x, n) == { a \in 1..n : Digit(2, x, n - a + 1) = 1 }
Degrees(U, V, T) == [v \in V |-> Cardinality({ a \in T : v = U[a][1] \/ v = U[a][2] })]
Comps(U, V, T) ==       \* vertex |-> representative of its component
    FoldLeft(LAMBDA f, a : LET p == f[U[a][1]] q == f[U[a][2]] IN
                           IF a \notin T \/ p = q THEN f ELSE [v \in V |-> IF f[v] = q THEN p ELSE f[v]],
             [v \in V |-> v], Range1(Len(U)))

(* disjoint paths that join exactly the two vertices of every colour *)
IsPaths(U, V, col, T, ham) ==
    LET d == Degrees(U, V, T) IN
    /\ \A v \in V : IF v \in DOMAIN col THEN d[v] = 1 ELSE d[v] = 2 \/ (d[v] = 0 /\ ~ ham)
    /\ LET c == Comps(U, V, T) IN
       /\ \A v \in DOMAIN col : \A w \in DOMAIN col : (c[v] = c[w]) <=> (col[v] = col[w])
       /\ \A v \in V : d[v] > 0 => \E w \in DOMAIN col : c[v] = c[w]
(* one simple cycle *)
IsCycle(U, V, T, ham) ==
    LET d == Degrees(U, V, T)
        on == { v \in V : d[v] > 0 }
    IN /\ T # {}
       /\ \A v \in V : d[v] = 2 \/ (d[v] = 0 /\ ~ ham)
       /\ LET c == Comps(U, V, T) IN Cardinality({ c[v] : v \in on }) = 1
(* a path between the two vertices of the single colour, or (no colour) a cycle *)
IsSlow(U, V, col, T) == IF DOMAIN col = {} THEN IsCycle(U, V, T, FALSE) ELSE IsPaths(U, V, col, T, FALSE)
(* every colour connected, colours apart, uec uncoloured edge components *)
IsComponents(U, V, col, T, uec, noloop) ==
    LET d == Degrees(U, V, T)
        c == Comps(U, V, T)
        colored == { c[v] : v \in DOMAIN col }
        un == { c[v] : v \in { w \in V : d[w] > 0 } } \ colored
    IN /\ \A v \in DOMAIN col : \A w \in DOMAIN col : (c[v] = c[w]) <=> (col[v] = col[w])
       /\ uec >= 0 => Cardinality(un) = uec
       /\ noloop => Cardinality(T) = Cardinality(V) - Cardinality({ c[v] : v \in V })
(* degrees as constrained *)
DegCons(e, v) ==
    LET own == { k \in 1..Len(e.cons) : e.cons[k][1] = v } IN
    IF own = {} THEN <<e.hasd, ToSet(e.dflt)>>
    ELSE LET k == Max(own) IN <<e.cons[k][2] = 1, ToSet(e.cons[k][3])>>
IsDegrees(U, V, T, con) ==
    LET d == Degrees(U, V, T) IN \A v \in V : con[v][1] => d[v] \in con[v][2]
IsLinear(x, cons) ==
    \A k \in 1..Len(cons) :
        LET s == FoldLeft(LAMBDA a, t : a + t[2] * Digit(2, x, t[1]), 0, cons[k][3])
        IN cons[k][1] <= s /\ s <= cons[k][2]

Member(e, U, V, x) ==
    LET T == Taken(x, Len(U)) IN
    CASE e.op = "path"  -> IsPaths(U, V, C, T, e.ham)
      [] e.op = "cycle" -> IsCycle(U, V, T, e.ham)
      [] e.op = "slow"  -> IsSlow(U, V, C, T)
      [] e.op = "fbs"   -> IsComponents(U, V, C, T, e.uec, e.noloop)

(***************************************************************************)
(* The frontier process: subsets grouped by (component, degree) on the     *)
(* vertices still incident to later edges.  Gives the number of members.   *)
(*   st = [ q : frontier vertex |-> <<component, degree>>,                 *)
(*          k : components' colours, by component name,                    *)
(*          z : number of closed cycles / finished uncoloured components ] *)
(* Component names are the least vertex on the frontier.                   *)
(***************************************************************************)
Renamed(q) ==  \* canonical component names
    [v \in DOMAIN q |-> << Min({ w \in DOMAIN q : q[w][1] = q[v][1] }), q[v][2], q[v][3] >>]
(* vertex entry: <<component, degree, colour of the component (-1: none)>> *)
Enter(q, v) == IF v \in DOMAIN q THEN q ELSE Set(q, v, <<v, 0, ColOf(C, v)>>)
CapDeg(e, d) == IF e.op = "fbs" THEN (IF d > 1 THEN 1 ELSE d) ELSE d
Join(e, q, u, v) ==
    LET a == q[u] b == q[v]
        k == IF a[3] # -1 THEN a[3] ELSE b[3]
    IN [w \in DOMAIN q |->
          LET inn == q[w][1] = a[1] \/ q[w][1] = b[1] IN
          << IF inn THEN a[1] ELSE q[w][1],
             CapDeg(e, q[w][2] + (IF w = u \/ w = v THEN 1 ELSE 0)),
             IF inn THEN k ELSE q[w][3] >>]
CanTake(e, s, u, v) ==
    LET a == s.q[u] b == s.q[v] same == a[1] = b[1]
        pathlike == e.op = "path" \/ (e.op = "slow" /\ DOMAIN C # {})
        cyclelike == e.op = "cycle" \/ (e.op = "slow" /\ DOMAIN C = {})
        cap(w) == IF pathlike /\ w \in DOMAIN C THEN 1 ELSE 2
    IN CASE pathlike -> /\ ~ same /\ a[2] < cap(u) /\ b[2] < cap(v)
                        /\ (a[3] = -1 \/ b[3] = -1 \/ a[3] = b[3])
         [] cyclelike -> a[2] < 2 /\ b[2] < 2 /\ (same => s.z = 0)
         [] OTHER -> (e.noloop => ~ same) /\ (a[3] = -1 \/ b[3] = -1 \/ a[3] = b[3])
(* a vertex whose last edge is done leaves; FALSE when that is not allowed *)
LeaveOK(e, s, v, later) ==
    LET a == s.q[v]
        alone == \A w \in DOMAIN s.q : w = v \/ s.q[w][1] # a[1]
        pathlike == e.op = "path" \/ (e.op = "slow" /\ DOMAIN C # {})
        cyclelike == e.op = "cycle" \/ (e.op = "slow" /\ DOMAIN C = {})
        ham == e.op \in {"path", "cycle"} /\ e.ham
    IN CASE pathlike -> IF v \in DOMAIN C THEN a[2] = 1 ELSE a[2] = 2 \/ (a[2] = 0 /\ ~ ham)
         [] cyclelike -> a[2] = 2 \/ (a[2] = 0 /\ ~ ham)
         [] OTHER -> IF ~ alone THEN TRUE
                     ELSE IF a[3] # -1 THEN
                          \* the whole colour must be in this component
                          /\ \A w \in DOMAIN s.q : w = v \/ s.q[w][3] # a[3]
                          /\ \A w \in later : ColOf(C, w) # a[3]
                     ELSE TRUE
LeaveState(e, s, v) ==
    LET a == s.q[v]
        alone == \A w \in DOMAIN s.q : w = v \/ s.q[w][1] # a[1]
        done == e.op = "fbs" /\ e.uec >= 0 /\ alone /\ a[3] = -1 /\ a[2] > 0
        q2 == [w \in DOMAIN s.q \ {v} |-> s.q[w]]
    IN [q |-> q2, z |-> s.z + (IF done THEN 1 ELSE 0)]
DpStep(e, U, M, a) ==
    LET u == U[a][1] v == U[a][2]
        later == VertsOf(SubSeq(U, a + 1, Len(U)))
        unseen == later \ VertsOf(SubSeq(U, 1, a))
        leave(s) ==     \* <<>> when refused, else <<state>>
            FoldLeft(LAMBDA r, w : IF r = <<>> \/ w \in later \/ w \notin DOMAIN r[1].q THEN r
                                   ELSE IF ~ LeaveOK(e, r[1], w, unseen) THEN <<>>
                                   ELSE <<LeaveState(e, r[1], w)>>, <<s>>, <<u, v>>)
        nexts(s0) ==
            LET s == [s0 EXCEPT !.q = Enter(Enter(@, u), v)]
                same == s.q[u][1] = s.q[v][1]
                cyc == e.op = "cycle" \/ (e.op = "slow" /\ DOMAIN C = {})
                t == IF CanTake(e, s, u, v)
                     THEN leave([q |-> Join(e, s.q, u, v), z |-> s.z + (IF same /\ cyc THEN 1 ELSE 0)]) ELSE <<>>
            IN t \o leave(s)
        norm(s) == [q |-> Renamed(s.q), z |-> s.z]
        \* pairs <<next state, source state, multiplicity index>>
        arr == UNION { { <<norm(nexts(s)[k]), s, k>> : k \in 1..Len(nexts(s)) } : s \in DOMAIN M }
        tgt == { x[1] : x \in arr }
    IN [t \in tgt |-> FoldSet(LAMBDA x, acc : Add(acc, M[x[2]]), <<>>, { x \in arr : x[1] = t })]
Dp(e, U) ==
    LET M == FoldLeft(LAMBDA m, a : DpStep(e, U, m, a), (([q |-> <<>>, z |-> 0]) :> One), Range1(Len(U)))
        cyc == e.op = "cycle" \/ (e.op = "slow" /\ DOMAIN C = {})
        final(s) == IF cyc THEN s.z = 1 ELSE IF e.op = "fbs" /\ e.uec >= 0 THEN s.z = e.uec ELSE TRUE
    IN FoldSet(LAMBDA s, acc : Add(acc, M[s]), <<>>, { s \in DOMAIN M : final(s) })

(***************************************************************************)
(* Observations of families                                                *)
(***************************************************************************)
ObsOK(d) == WellFormed(d, 2) /\ d.top = Lev(d, d.root)
Strict == "MODE" \in DOMAIN IOEnv /\ IOEnv.MODE = "strict"
(* Known finding "hamilton-window": the Hamiltonian specifications do not   *)
(* look, when the last edge closes the path or the cycle, at vertices that  *)
(* lie beyond the mate window (nor, for cycles, at its first vertex).       *)
(* Exactly these extra members are tolerated, and only outside MODE=strict. *)
HamExtra(e, U, V, x) ==
    LET n == Len(U)
        T == Taken(x, n)
        m == Cardinality(V)
        num == [v \in V |-> CHOOSE k \in 1..m : e.vn[k] = v]
        v0(a) == Min({ num[v] : v \in { w \in V : LastE(U, w) >= a } })
        W == Max({ Max({num[U[a][1]], num[U[a][2]]}) - v0(a) + 1 : a \in 1..n })
        d == Degrees(U, V, T)
        unv == { v \in V : d[v] = 0 }
        a == Max(T)
    IN /\ T # {} /\ unv # {}
       /\ IF e.op = "path" THEN IsPaths(U, V, C, T, FALSE) ELSE IsCycle(U, V, T, FALSE)
       /\ \A v \in unv : \/ num[v] >= v0(a) + W
                         \/ /\ e.op = "cycle" /\ num[v] = v0(a)
                            /\ SecondLast(U, v) = 0 \/ SecondLast(U, v) > a
FamilyVerdict(e) ==
    LET U == Unique(E)
        V == VertsOf(U)
        n == Len(U)
    IN IF ~ ObsOK(e.d) THEN "malformed"
       ELSE IF n > MAXENUM THEN (IF e.c = Dp(e, U) THEN "" ELSE "number-of-members")
       ELSE LET want == { x \in 0..(Pow(2, n) - 1) : Member(e, U, V, x) }
                got == DenZ(e.d, 2)
                known == ~ Strict /\ e.op \in {"path", "cycle"} /\ e.ham /\ want \subseteq got
                         /\ got \ want = { x \in (0..(Pow(2, n) - 1)) \ want : HamExtra(e, U, V, x) }
            IN
            IF got # want /\ ~ known THEN "members"
            ELSE IF e.c # FromInt(Cardinality(got)) THEN "number-of-members"
            ELSE IF n <= 9 /\ Dp(e, U) # FromInt(Cardinality(want)) THEN "SPEC-dp-disagrees"
            ELSE ""
DegreeVerdict(e) ==
    LET U == Unique(E)
        V == VertsOf(U)
        n == Len(U)
        con == [v \in V |-> DegCons(e, v)]
        want == { x \in 0..(Pow(2, n) - 1) : IsDegrees(U, V, Taken(x, n), con) }
    IN IF ~ ObsOK(e.d) THEN "malformed"
       ELSE IF DenZ(e.d, 2) # want THEN "members"
       ELSE IF e.c # FromInt(Cardinality(want)) THEN "number-of-members" ELSE ""
Bits(x, n) == Cardinality({ i \in 1..n : Digit(2, x, i) = 1 })
RECURSIVE Choose(_, _)
Binom(n) ==     \* row n of Pascal's triangle, exact
    FoldLeft(LAMBDA r, k : [i \in 1..(k + 1) |-> IF i = 1 \/ i = k + 1 THEN One ELSE Add(r[i - 1], r[i])], <<One>>, Range1(n))
Choose(n, k) == Binom(n)[k + 1]
SizeVerdict(e) ==
    LET ok(c) == ~ e.hasd \/ c \in ToSet(e.dflt) IN
    IF ~ ObsOK(e.d) THEN "malformed"
    ELSE IF e.n > MAXENUM
         THEN LET row == Binom(e.n) IN
              (IF e.c = FoldLeft(LAMBDA s, k : IF ok(k - 1) THEN Add(s, row[k]) ELSE s, <<>>, Range1(e.n + 1)) THEN "" ELSE "number-of-members")
    ELSE LET want == { x \in 0..(Pow(2, e.n) - 1) : ok(Bits(x, e.n)) } IN
         IF DenZ(e.d, 2) # want \/ DenB(e.d, 2, e.n) # want THEN "members"
         ELSE IF e.c # FromInt(Cardinality(want)) THEN "number-of-members" ELSE ""
LinearVerdict(e) ==
    LET want == { x \in 0..(Pow(2, e.n) - 1) : IsLinear(x, e.cons) } IN
    IF ~ ObsOK(e.d) THEN "malformed"
    ELSE IF DenZ(e.d, 2) # want \/ DenB(e.d, 2, e.n) # want THEN "members"
    ELSE IF e.c # FromInt(Cardinality(want)) THEN "number-of-members" ELSE ""

(***************************************************************************)
(* The ddpaths command.  One run: a "load" event (the files and the type   *)
(* asked for, which give E and C) and a "cli" event with what it printed.  *)
(*   t = path | cycle | cc | forest, ham, slow, dc, uec, lb, ub: options   *)
(***************************************************************************)
NONE == -1
CliColors(e, es) ==
    LET c == IF e.hasg THEN FoldLeft(LAMBDA f, k : FoldLeft(LAMBDA g, v : Set(g, v, k - 1), f, e.groups[k]), <<>>, Range1(Len(e.groups))) ELSE <<>>
        m == Cardinality(VertsOf(es))
    IN IF e.t = "cycle" THEN <<c, <<>> >>
       ELSE IF e.t = "path" /\ DOMAIN c = {} THEN LET d == (1 :> 7777) @@ (m :> 7777) IN <<d, d>>
       ELSE <<c, c>>
(* colours as read must name vertices of the graph even where they are dropped later *)
CliOK(e) == /\ E # <<>>
            /\ DOMAIN e.c0 \subseteq VertsOf(E)
            /\ e.t = "path" => /\ DOMAIN C # {}
                               /\ \A k \in ColorsUsed(C) : Cardinality(ClassOf(C, k)) = 2
CliAsk(e) == [op |-> IF e.t \in {"cc", "forest"} THEN "fbs" ELSE IF e.slow /\ ~ e.ham THEN "slow" ELSE e.t,
              ham |-> e.ham, uec |-> e.uec, noloop |-> e.t = "forest", vn |-> <<>>]
InSize(e, x, n) == LET b == Cardinality({ i \in 1..n : Digit(2, x, i) = 1 }) IN
                   (e.lb # NONE => b >= e.lb) /\ (e.ub # NONE => b <= e.ub)
CliVerdict(e) ==
    LET U == Unique(E)
        V == VertsOf(U)
        n == Len(U)
        ok == ~ e.badcli /\ CliOK(e)      \* a command line that makes sense, and a graph that does
        ask == CliAsk(e)
        all == 0..(Pow(2, n) - 1)
        edgeset(x) == { {U[a][1], U[a][2]} : a \in Taken(x, n) }
    IN IF e.err = ok THEN (IF ok THEN "unexpected-error" ELSE "error-not-reported")
       ELSE IF ~ ok THEN ""
       ELSE IF e.nv # Cardinality(V) \/ e.ne # n THEN "graph-size"
       ELSE IF e.ncol # NONE /\ e.ncol # Cardinality(ColorsUsed(C)) THEN "colour-count"
       ELSE IF e.out = "graph" THEN (IF e.edges = { {U[a][1], U[a][2]} : a \in 1..n } /\ e.nedges = n THEN "" ELSE "graph-dump")
       ELSE IF n > MAXENUM THEN
            LET w == Dp(ask, U) IN IF e.c # w \/ (e.cx # <<NONE>> /\ e.cx # w) THEN "number-of-members" ELSE ""
       ELSE LET want == { x \in all : Member(ask, U, V, x) /\ InSize(e, x, n) }
                extra(vn) == { x \in all : /\ ~ Member(ask, U, V, x) /\ InSize(e, x, n)
                                           /\ HamExtra([ask EXCEPT !.vn = vn], U, V, x) }
                fits(S) == S = want \/ (/\ ~ Strict /\ e.ham /\ e.t \in {"path", "cycle"}
                                       /\ \E k \in 1..Len(e.vns) : S = want \cup extra(e.vns[k]))
                fitsC(cnt) == cnt = FromInt(Cardinality(want))
                              \/ (/\ ~ Strict /\ e.ham /\ e.t \in {"path", "cycle"}
                                  /\ \E k \in 1..Len(e.vns) : cnt = FromInt(Cardinality(want \cup extra(e.vns[k]))))
                inter == { x \in all : /\ InSize(e, x, n)
                                       /\ (e.dc /\ e.t \in {"path", "cycle"}) =>
                                          LET d == Degrees(U, V, Taken(x, n)) IN
                                          \A v \in V : IF v \in DOMAIN C THEN d[v] = 1 ELSE d[v] \in {0, 2} }
            IN IF ~ fitsC(e.c) THEN "number-of-members"
               ELSE IF e.cx # <<NONE>> /\ e.cx # e.c THEN "number-of-members"
               ELSE CASE e.out = "none" -> ""
                      [] e.out \in {"zdd", "export"} ->
                           IF ~ WellFormed(e.d, 2) THEN "malformed" ELSE IF fits(DenZ(e.d, 2)) THEN "" ELSE "members"
                      [] e.out = "zdd1" -> IF ~ WellFormed(e.d, 2) THEN "malformed" ELSE IF DenZ(e.d, 2) = inter THEN "" ELSE "intermediate-members"
                      [] e.out = "all" ->
                           LET got == { x \in all : edgeset(x) \in e.sets } IN
                           IF Cardinality(e.sets) # e.nsets \/ Cardinality(got) # Cardinality(e.sets) THEN "listed-twice-or-unknown"
                           ELSE IF fits(got) THEN "" ELSE "members"

(***************************************************************************)
(* The graphillion_example command: a "gload" event (graph and group files *)
(* give E and C) and a "gcli" event.  -st colours the first and the last   *)
(* vertex of the graph's own numbering, in which vertices that leave with  *)
(* the same edge may come in either order.                                 *)
(*   path, matching, spanning, noloop, uec, lb, ub: restrictions;          *)
(*   base: the imported family, items numbered like the edges              *)
(***************************************************************************)
GColors(e, U, V) ==
    IF ~ e.st \/ V = {} THEN {C}
    ELSE LET lst == [v \in V |-> LastE(U, v)]
             fst == { v \in V : lst[v] = Min({ lst[w] : w \in V }) }
             lat == { v \in V : lst[v] = Len(U) }
         IN { Set(Set(C, p[1], 0), p[2], 0) : p \in { q \in fst \X lat : q[1] # q[2] } }
GDegree(e, col, v, d) ==
    IF e.spanning /\ v \notin DOMAIN col THEN d >= 1
    ELSE IF e.matching THEN d <= 1
    ELSE IF e.path THEN (IF v \in DOMAIN col THEN d = 1 ELSE d \in {0, 2})
    ELSE TRUE
GMember(e, U, V, col, x) ==
    LET T == Taken(x, Len(U))
        d == Degrees(U, V, T)
        uec == IF e.uec = NONE /\ e.path THEN 0 ELSE e.uec
    IN /\ InSize(e, x, Len(U))
       /\ \A v \in V : GDegree(e, col, v, d[v])
       /\ IsComponents(U, V, col, T, uec, e.noloop)
GVerdict(e, U, V, col) ==
    LET n == Len(U)
        all == 0..(Pow(2, n) - 1)
        from == IF e.import THEN DenZ(e.base, 2) \cap all ELSE all
        edgeset(x) == { {U[a][1], U[a][2]} : a \in Taken(x, n) }
    IN IF e.nv # Cardinality(V) \/ e.ne # n THEN "graph-size"
       ELSE IF e.ncol # Cardinality(ColorsUsed(col)) THEN "colour-count"
       ELSE IF e.out = "graph" THEN
            (IF e.edges = { {U[a][1], U[a][2]} : a \in 1..n } /\ e.nedges = n /\ ToSet(e.filled) = DOMAIN col THEN "" ELSE "graph-dump")
       ELSE LET want == { x \in from : GMember(e, U, V, col, x) } IN
            IF e.c # FromInt(Cardinality(want)) THEN "number-of-members"
            ELSE IF e.cx # <<NONE>> /\ e.cx # e.c THEN "number-of-members"
            ELSE CASE e.out = "none" -> ""
                   [] e.out \in {"zdd", "export"} ->
                        IF ~ WellFormed(e.d, 2) THEN "malformed"
                        ELSE IF DenZ(e.d, 2) # want THEN "members"
                        ELSE IF e.lib # NONE /\ e.lib # FoldLeft(LAMBDA a, r : a + Cardinality(r[2]), 0, Canon(e.d, 2, "z").rows) THEN "library-size"
                        ELSE ""
                   [] e.out = "solutions" ->
                        LET got == { x \in all : edgeset(x) \in e.sets }
                            lim == IF e.max >= 1 /\ e.max < Cardinality(want) THEN e.max ELSE Cardinality(want)
                        IN IF Cardinality(e.sets) # e.nsets \/ Cardinality(got) # Cardinality(e.sets) THEN "listed-twice-or-unknown"
                           ELSE IF got \subseteq want /\ Cardinality(got) = lim THEN "" ELSE "members"
GCli(e) ==
    LET U == Unique(E)
        V == VertsOf(U)
        ok == ~ e.badcli /\ ~ pend /\ U # <<>> /\ DOMAIN C \subseteq V
        S == GColors(e, U, V)
    IN IF e.err = ok THEN (IF ok THEN "unexpected-error" ELSE "error-not-reported")
       ELSE IF ~ ok THEN ""
       ELSE IF \E col \in S : GVerdict(e, U, V, col) = "" THEN ""
       ELSE GVerdict(e, U, V, CHOOSE col \in S : TRUE)

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
FileEdges(ls) == FoldLeft(LAMBDA acc, ln : IF ln = <<>> THEN acc ELSE Append(acc, <<ln[1], ln[2]>>), <<>>, ls)
AdjEdges(ls) == FoldLeft(LAMBDA acc, k : FoldLeft(LAMBDA b, v : Append(b, <<k, v>>), acc, ls[k]), <<>>, Range1(Len(ls)))
GroupColors(ls) == FoldLeft(LAMBDA f, k : FoldLeft(LAMBDA g, v : Set(g, v, k - 1), f, ls[k]), <<>>, Range1(Len(ls)))
KnownColors(es, c) == DOMAIN c \subseteq VertsOf(es)
Want(ok, e) == IF e.err = ~ ok THEN "" ELSE IF e.err THEN "unexpected-error" ELSE "error-not-reported"

Step ==
    LET e == Ev[l + 1]
        \* after an update the derived data must exist: colours of known vertices only
        upd(es, c) == /\ E' = es /\ C' = c /\ pend' = FALSE /\ bad' = Want(KnownColors(es, c), e)
    IN
    CASE e.op = "edge"  -> E' = Append(E, <<e.u, e.v>>) /\ C' = C /\ pend' = TRUE /\ bad' = Want(TRUE, e)
      [] e.op \in {"color", "colorn"} -> C' = Set(C, e.v, e.c) /\ E' = E /\ pend' = TRUE /\ bad' = Want(TRUE, e)
      [] e.op = "update" -> upd(E, C)
      [] e.op = "clear"  -> upd(E, <<>>)
      [] e.op = "defpath" -> LET m == Cardinality(VertsOf(E)) IN
                             upd(E, IF m = 1 THEN (1 :> 7777) ELSE (1 :> 7777) @@ (m :> 7777))
      [] e.op = "file" ->
           IF e.k = "edges" THEN
              LET okl == \A k \in 1..Len(e.lines) : Len(e.lines[k]) \in {0, 2} IN
              IF ~ okl THEN UNCHANGED <<E, C>> /\ pend' = TRUE /\ bad' = Want(FALSE, e)
              ELSE upd(E \o FileEdges(e.lines), C)
           ELSE IF e.k = "adj" THEN upd(AdjEdges(e.lines), <<>>)
           ELSE upd(E, GroupColors(e.lines))
      \* more vertices than the 16-bit vertex numbers of the specifications can name
      [] e.op = "huge" -> /\ UNCHANGED <<E, C, pend>>
                          /\ bad' = IF e.err THEN "unexpected-error"
                                    ELSE IF e.n > 65535 THEN (IF e.refused THEN "" ELSE "error-not-reported")
                                    ELSE IF e.n = 65535 /\ e.refused THEN ""
                                    ELSE IF e.refused THEN "unexpected-error"
                                    ELSE IF e.right THEN "" ELSE "large-graph"
      [] e.op = "load" -> /\ E' = AdjEdges(e.lines) /\ C' = CliColors(e, E')[2]
                          /\ pend' = FALSE /\ bad' = ""
      [] e.op = "gload" ->       \* pend: a file that cannot be read
           /\ E' = IF e.k = "edges" THEN FileEdges(SelectSeq(e.lines, LAMBDA x : Len(x) \in {0, 2})) ELSE AdjEdges(e.lines)
           /\ pend' = (e.k = "edges" /\ \E k \in 1..Len(e.lines) : Len(e.lines[k]) \notin {0, 2})
           /\ C' = IF e.hasg THEN GroupColors(e.groups) ELSE FoldLeft(LAMBDA f, k : Set(f, e.colored[k], 0), <<>>, Range1(Len(e.colored)))
           /\ bad' = ""
      [] e.op = "gcli" ->
           LET q == [e EXCEPT !.sets = { { {@[i][j][1], @[i][j][2]} : j \in 1..Len(@[i]) } : i \in 1..Len(@) },
                              !.edges = { {@[i][1], @[i][2]} : i \in 1..Len(@) }]
           IN UNCHANGED <<E, C, pend>> /\ bad' = GCli(q)
      [] e.op = "cli" ->
           LET ld == Ev[l]
               q == [e EXCEPT !.c0 = CliColors(ld, E)[1],
                              !.sets = { { {@[i][j][1], @[i][j][2]} : j \in 1..Len(@[i]) } : i \in 1..Len(@) },
                              !.edges = { {@[i][1], @[i][2]} : i \in 1..Len(@) }]
           IN UNCHANGED <<E, C, pend>> /\ bad' = CliVerdict(q)
      [] OTHER ->
           /\ UNCHANGED <<E, C, pend>>
           /\ bad' = IF e.err THEN "unexpected-error"
                     ELSE IF pend THEN "HARNESS-update-missing"
                     ELSE CASE e.op = "info" -> InfoVerdict(e)
                            [] e.op \in {"path", "cycle", "slow", "fbs"} -> FamilyVerdict(e)
                            [] e.op = "deg" -> DegreeVerdict(e)
                            [] e.op = "size" -> SizeVerdict(e)
                            [] e.op = "lin" -> LinearVerdict(e)

Next == bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs /\ Step
Done == bad = "" /\ l = Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
Accepted == bad = ""
=============================================================================
