------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The specification of a session with the library: handles hold decision  *)
(* diagrams; every API call is an action with a pre-state, a post-state    *)
(* and the observation that call is allowed to make.                       *)
(*                                                                         *)
(* State:  tab : name -> top-down specification (a levelled state graph)   *)
(*         reg : handle -> [ref |-> the graph observed at the handle's     *)
(*                     last mutation, z |-> its ZDD meaning,               *)
(*                     red |-> the reduction rule it is canonical for,     *)
(*                     mp  |-> multi-processor flag]                       *)
(* The meaning of a handle is what the specification computes from the     *)
(* operations applied so far, never what the implementation reports: the   *)
(* observed graph is only admitted when it has that meaning.               *)
(*                                                                         *)
(* Bound to the implementation by trace validation: each case of the trace *)
(* file is one recorded session with the real library; TLC replays it and  *)
(* requires every recorded observation to be one this module allows.       *)
(***************************************************************************)
EXTENDS Merge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
BIG == IOEnv.MODE = "big"      \* diagrams too large for explicit denotations

VARIABLES cs, l, tab, reg, bad

vars == <<cs, l, tab, reg, bad>>

Init == /\ cs \in 1..Len(Trace)
        /\ l = 0
        /\ tab = <<>>
        /\ reg = <<>>
        /\ bad = ""

A == Trace[cs].A
Ev == Trace[cs].ev

(* functions with string domains, extended pointwise *)
Set(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(***************************************************************************)
(* Meaning: an explicit set of assignments when the diagram is small, a    *)
(* canonical form when it is large.                                        *)
(***************************************************************************)
MZ(D) == IF BIG THEN Canon(D, A, "z") ELSE DenZ(D, A)

Graph(d) == [root |-> d.root, nodes |-> d.nodes]

(* following 0-decisions *)
RECURSIVE ZeroDown(_, _, _)
ZeroDown(d, f, stop) == IF Lev(d, f) > stop THEN ZeroDown(d, d.nodes[f - 1][2], stop) ELSE f
ZeroEnds(d) == FoldLeft(LAMBDA acc, nd : Append(acc, acc[nd[2] + 1]), <<0, 1>>, d.nodes)
(* the observation of a handle is self-consistent *)
ObsOK(d) ==
    /\ WellFormed(d, A)
    /\ d.size >= Len(d.nodes)
    /\ d.top = Lev(d, d.root)
    /\ d.empty = (d.root = 0)
    /\ LET zb == ZeroEnds(d) IN          \* getZeroDescendant (not recorded for large diagrams)
       /\ d.zd = <<>> \/ d.zd = [k \in 1..(d.top + 1) |-> ZeroDown(d, d.root, k - 1)]
       /\ d.zn = <<>> \/ \A k \in 1..Len(d.nodes) : \A b \in 1..A : d.zn[k][b] = zb[d.nodes[k][b + 1] + 1]

Handle(d, red, mp) == [ref |-> Graph(d), z |-> MZ(d), red |-> red, mp |-> mp, sub |-> FALSE]
(* a handle whose root was moved down by the user may keep unreachable nodes *)
HandleSub(d, red, mp) == [Handle(d, red, mp) EXCEPT !.sub = TRUE]

NVars(D) == IF D.nodes = <<>> THEN 0 ELSE Max(LevelsOf(D))

(***************************************************************************)
(* Observations allowed for each operation.  Each is a sequence of         *)
(* <<name, condition>>; the first failing name becomes the verdict.        *)
(***************************************************************************)
FirstFail(cs_) ==
    LET f == SelectSeq(cs_, LAMBDA c : ~ c[2]) IN IF f = <<>> THEN "" ELSE f[1][1]

(* construction from a specification S: same accepted paths, one node per   *)
(* distinct state, nothing beyond the reachable states                     *)
BuildVerdict(S, d) ==
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF ~ Represents(S, d, A) THEN "meaning-or-sharing"
    ELSE IF d.size > Cardinality(ReachNodes(S, A)) THEN "size-bound"
    ELSE ""

UnivVerdict(n, d) ==
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF Len(d.nodes) # n \/ d.size # n THEN "universal-size"
    ELSE IF \E k \in 1..n : d.nodes[k] # [b \in 1..(A + 1) |-> IF b = 1 THEN k ELSE k] THEN "universal-shape"
    ELSE IF d.root # (IF n = 0 THEN 1 ELSE n + 1) THEN "universal-root"
    ELSE ""

(* reduction: meaning kept, canonical, nothing unreachable left            *)
ReduceVerdict(h, kind, d) ==
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF ~ IsReduced(d, kind) THEN "not-reduced"
    ELSE IF (~ h.sub) /\ d.size # Len(d.nodes) THEN "garbage-nodes"
    ELSE IF kind = "q" THEN (IF SamePaths(h.ref, d, A) THEN "" ELSE "meaning-q")
    ELSE IF Canon(h.ref, A, kind) # Canon(d, A, kind) THEN "meaning"
    ELSE IF (~ BIG) /\ kind = "z" /\ DenZ(d, A) # h.z THEN "meaning-z"
    ELSE IF (~ BIG) /\ kind = "b" /\ DenB(d, A, NVars(h.ref)) # DenB(h.ref, A, NVars(h.ref)) THEN "meaning-b"
    ELSE ""

(* subsetting: exactly the itemsets in both, level-wise ZDD semantics       *)
SubsetVerdict(h, S, d) ==
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF (~ BIG) /\ DenZ(d, A) # h.z \cap DenZ(S, A) THEN "meaning"
    ELSE IF BIG /\ Canon(d, A, "z") # Canon(Product(h.ref, S, "int", A), A, "z") THEN "meaning"
    ELSE ""

BigOp(f, Gs) == FoldLeft(LAMBDA g, k : Product(g, Gs[k], f, 2), Gs[1], [k \in 1..(Len(Gs) - 1) |-> k + 1])
OpVerdict(f, Gs, d) ==
    LET n == FoldLeft(LAMBDA m, G : Max2(m, NVars(G)), NVars(d), Gs)
        B == [k \in 1..Len(Gs) |-> DenB(Gs[k], 2, n)]
        Z == [k \in 1..Len(Gs) |-> DenZ(Gs[k], 2)]
        inter(X) == { x \in X[1] : \A k \in 2..Len(X) : x \in X[k] }
        union(X) == UNION { X[k] : k \in 1..Len(X) }
    IN IF ~ ObsOK(d) THEN "malformed"
       ELSE IF BIG THEN LET k == IF f \in {"and", "or"} THEN "b" ELSE "z" IN
                        (IF Canon(d, 2, k) = Canon(BigOp(f, Gs), 2, k) THEN "" ELSE f)
       ELSE CASE f = "and" -> IF DenB(d, 2, n) = inter(B) THEN "" ELSE "and"
              [] f = "or"  -> IF DenB(d, 2, n) = union(B) THEN "" ELSE "or"
              [] f = "int" -> IF DenZ(d, 2) = inter(Z) THEN "" ELSE "intersection"
              [] f = "uni" -> IF DenZ(d, 2) = union(Z) THEN "" ELSE "union"
              [] OTHER -> "unknown-op"

(* lookahead: same function, and no node whose children states coincide     *)
(* (b) / whose positive children are all the 0-terminal (z)                *)
LookSkip(kind, S) ==     \* id+1 |-> the state the lookahead settles on
    FoldLeft(LAMBDA m, nd : Append(m, IF RedundantRow(kind, nd) THEN m[nd[2] + 1] ELSE Len(m)),
             <<0, 1>>, S.nodes)
LookTab(kind, S) ==
    LET sk == LookSkip(kind, S) IN
    [root |-> sk[S.root + 1],
     nodes |-> [k \in 1..Len(S.nodes) |-> [b \in 1..(A + 1) |->
                  IF b = 1 THEN S.nodes[k][1] ELSE sk[S.nodes[k][b] + 1]]]]
LookVerdict(kind, S, d) ==
    LET n == Max2(NVars(S), NVars(d)) IN
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF kind = "b" /\ DenB(d, A, n) # DenB(S, A, n) THEN "meaning-b"
    ELSE IF kind = "z" /\ DenZ(d, A) # DenZ(S, A) THEN "meaning-z"
    ELSE IF ~ Represents(LookTab(kind, S), d, A) THEN "redundant-state-kept"
    ELSE IF d.size > Cardinality(ReachNodes(LookTab(kind, S), A)) THEN "redundant-dead-state-kept"
    ELSE ""

(* unreduction: no level skipped on any accepted path, same function        *)
UnredVerdict(kind, S, n0, d) ==
    LET n == Max2(n0, Lev(S, S.root)) IN
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF kind = "b" /\ DenB(d, A, n) # DenB(S, A, n) THEN "meaning-b"
    ELSE IF kind = "z" /\ DenZ(d, A) # DenZ(S, A) THEN "meaning-z"
    ELSE IF S.root # 0 /\ Lev(d, d.root) # n /\ DenZ(d, A) # {} THEN "root-level"
    ELSE IF LET al == AliveTab(d, A) IN
            \E k \in 1..Len(d.nodes) : al[k + 2] /\ \E b \in 2..(A + 1) :
               al[d.nodes[k][b] + 1] /\ Lev(d, d.nodes[k][b]) # d.nodes[k][1] - 1 THEN "level-skipped"
    ELSE ""

(* conversion: the function/family is the same under the other convention   *)
ConvVerdict(c, S, n0, d) ==
    LET n == Max2(n0, Max2(NVars(S), NVars(d))) IN
    IF ~ ObsOK(d) THEN "malformed"
    ELSE IF c = "b2z" /\ DenZ(d, A) # DenB(S, A, Max2(n0, Lev(S, S.root))) THEN "meaning"
    ELSE IF c = "z2b" /\ DenB(d, A, Max2(n0, Lev(S, S.root))) # DenZ(S, A) THEN "meaning"
    ELSE ""

(***************************************************************************)
(* Bottom-up evaluation: the log of evalNode calls is itself a diagram     *)
(* (each call names the values it was handed); it must be the diagram.     *)
(***************************************************************************)
EvalVerdict(e) ==
    LET calls == SelectSeq(e.log, LAMBDA x : x[1] = 0)
        m == Len(calls)
        \* call k produced tag k+1 (0 and 1 are the terminals)
        G == [root |-> e.v, nodes |-> [k \in 1..m |-> [b \in 1..(A + 1) |-> IF b = 1 THEN calls[k][3] ELSE calls[k][b + 3]]]]
        tagsOK == { calls[k][2] : k \in 1..m } = 2..(m + 1)
        sorted == [k \in 1..m |-> calls[CHOOSE q \in 1..m : calls[q][2] = k + 1]]
        G2 == [root |-> e.v, nodes |-> [k \in 1..m |-> [b \in 1..(A + 1) |-> IF b = 1 THEN sorted[k][3] ELSE sorted[k][b + 3]]]]
        lv(id) == IF id < 2 THEN 0 ELSE sorted[id - 1][3]
    IN IF ~ tagsOK THEN "calls-not-unique"
       ELSE IF m # e.d.size THEN "each-node-once"
       ELSE IF (~ e.safe) /\ e.thr > 1 THEN "unsafe-evaluator-shared"
       ELSE IF \E k \in 1..m : sorted[k][4] # e.top THEN "initialize"
       ELSE IF \E k \in 1..m : \E b \in 1..A :
                  \/ sorted[k][b + 4] < 0 \/ sorted[k][b + 4] > m + 1
                  \/ sorted[k][b + 4] >= 2 /\ lv(sorted[k][b + 4]) >= sorted[k][3] THEN "child-values"
       ELSE IF \E k \in 1..m : \E b \in 1..A : sorted[k][b + 4 + A] # lv(sorted[k][b + 4]) THEN "child-levels"
       ELSE IF e.v < 0 \/ e.v > m + 1 THEN "result"
       ELSE IF ~ Isomorphic(e.d, [root |-> e.v, nodes |-> [k \in 1..m |-> [b \in 1..(A + 1) |-> IF b = 1 THEN sorted[k][3] ELSE sorted[k][b + 3]]]], A) THEN "structure"
       ELSE IF \E p \in 1..Len(e.log) : e.log[p][1] = 1 /\
                  (\/ e.log[p][2] = e.top /\ e.top > 0
                   \/ \E q \in (p + 1)..Len(e.log) : e.log[q][1] = 0 /\
                        (\/ e.log[q][3] = e.log[p][2]
                         \/ \E b \in 1..A : e.log[q][b + 4] >= 2 /\ e.log[q][b + 4 + A] = e.log[p][2])) THEN "value-used-after-level-destructed"
       ELSE IF \E k \in 1..m : \E b \in 1..A :
                  sorted[k][b + 4] >= 2 /\     \* by the evaluator object that computed the child
                  ~ \E p \in 1..Len(e.log) : e.log[p] = <<1, sorted[k][b + 4 + A], sorted[sorted[k][b + 4] - 1][5 + 2 * A]>> THEN "level-never-destructed"
       ELSE ""

(***************************************************************************)
(* Iteration: every itemset exactly once.                                  *)
(***************************************************************************)
IterVerdict(h, e) ==
    LET sets == [k \in 1..Len(e.sets) |-> ToSet(e.sets[k])]
        want == IF BIG THEN {} ELSE h.z
        \* large: the family as sets of levels, from the paths of the diagram
        wantP == { { v[1] : v \in { w \in p : w[2] = 1 } } : p \in Paths(h.ref, 2) }
    IN IF ~ e.ok THEN "iterator-protocol"
       ELSE IF Cardinality(ToSet(sets)) # Len(sets) THEN "duplicate"
       ELSE IF \E k \in 1..Len(sets) : Cardinality(sets[k]) # Len(e.sets[k]) THEN "itemset"
       ELSE IF BIG THEN (IF ToSet(sets) # wantP THEN "itemsets" ELSE "")
       ELSE IF { CodeOf(s) : s \in ToSet(sets) } # want THEN "itemsets"
       ELSE ""

(* structural equality *)
EqVerdict(hr, hs, e) ==
    LET iso == Bisimilar(hr.ref, hs.ref, A) IN
    IF e.e # e.f THEN "not-symmetric"
    ELSE IF e.ne = e.e THEN "not-complement"
    ELSE IF e.e # iso THEN "equality"
    ELSE ""

(* the same nodes seen from the node at the end of a path                   *)
SubAt(D, path) ==
    [root |-> FoldLeft(LAMBDA f, b : IF f < 2 THEN f ELSE D.nodes[f - 1][b + 2], D.root, path), nodes |-> D.nodes]

(* findOneInstance: an accepted path, or an error iff there is none         *)
OneVerdict(S, e) ==
    LET P == Paths(S, A) IN
    IF \E k \in 1..Len(e.inst) :
          IF P = {} THEN e.inst[k] # << <<-1, -1>> >>
          ELSE ToSet(e.inst[k]) \notin P \/ Len(e.inst[k]) # Cardinality(ToSet(e.inst[k]))
    THEN "instance" ELSE ""

(***************************************************************************)
(* Text formats.  The driver only splits the text into nodes and edges; the *)
(* graph it denotes is judged here.                                        *)
(***************************************************************************)
Part(D) == LET R == ReachNodes(D, A) IN Cardinality(R)
LevelLabels(g, top, named) ==
    /\ Len(g.levels) = top
    /\ ToSet([k \in 1..Len(g.levels) |-> g.levels[k]])
         = { <<i, (IF named THEN "x" ELSE "") \o ToString(i)>> : i \in 1..top }
DotVerdict(S, e) ==
    LET g == e.g IN
    IF ~ g.ok THEN "dot-syntax"
    ELSE IF ~ WellFormed(g, A) THEN "dot-malformed"
    ELSE IF ~ Isomorphic(S, g, A) THEN "dot-graph"
    ELSE IF Len(g.nodes) # Part(S) THEN "dot-extra-nodes"
    ELSE IF S.root # 0 /\ g.tops # 1 THEN "dot-terminal"
    ELSE IF S.root >= 2 /\ ~ LevelLabels(g, Lev(S, S.root), e.kind = "lab") THEN "dot-level-labels"
    ELSE IF e.kind # "dd" /\ \E p \in PairsOf(S, g, A, [k \in 1..(Len(S.nodes) + 2) |-> TRUE], [k \in 1..(Len(g.nodes) + 2) |-> TRUE]) :
              p[1] >= 2 /\ g.labels[p[2] - 1] # p[1] THEN "dot-state-label"
    ELSE ""
DotTableVerdict(e) ==        \* the whole node table, which has no root arrow
    LET g == e.g IN
    IF ~ g.ok THEN "dot-syntax"
    ELSE IF e.d.size # Len(e.d.nodes) THEN ""        \* unreachable rows: not comparable by position
    ELSE IF g.nodes # e.d.nodes THEN "dot-graph" ELSE ""
SapVerdict(e) ==
    LET g == e.g IN
    IF ~ g.ok THEN "sapporo-syntax"
    ELSE IF g.count # Len(g.nodes) \/ g.count # e.d.size THEN "sapporo-count"
    ELSE IF ~ WellFormed(g, 2) THEN "sapporo-order"
    ELSE IF ~ Isomorphic(Graph(e.d), g, 2) THEN "sapporo-graph"
    ELSE IF \E k \in 1..Len(g.nodes) : g.nodes[k][1] > g.n THEN "sapporo-inputs"
    ELSE ""
(* Graphillion numbers variables downwards: the last variable is level 1 *)
Lowered(S) ==
    LET m == IF S.nodes = <<>> THEN 1 ELSE Min(LevelsOf(S)) IN
    [root |-> S.root, nodes |-> [k \in 1..Len(S.nodes) |-> [S.nodes[k] EXCEPT ![1] = @ - m + 1]]]

(***************************************************************************)
(* Merging specifications: the surviving paths are those of MergeRun.  With *)
(* several processors the 1-terminal may stay unmerged (known finding).     *)
(* mode "cut" (ties cut one state off) leaves the choice of survivor open;  *)
(* mode "lvl" prunes at the levels only and keeps every 1-terminal arrival. *)
(***************************************************************************)
MergeVerdict(f, D, n, e, mp, got(_)) ==
    LET md == IF e.mode \in {"cut", "lvl"} THEN "min" ELSE e.mode
        M == [f |-> f, D |-> D, S |-> tab[e.t], W |-> e.w, cap |-> e.cap, A |-> A, n |-> n]
        ok(X) == IF e.mode = "cut" THEN got(X) # "no" ELSE got(X) = "eq"
    IN IF ok(MergeRun(M, md, e.mode = "lvl", e.mode # "lvl")) THEN ""
       ELSE IF mp /\ IOEnv.MODE # "strict" /\ ok(MergeRun(M, md, e.mode = "lvl", FALSE)) THEN ""
       ELSE "merged-states"
Rel(P, X) == IF P = X THEN "eq" ELSE IF P \subseteq X /\ (P = {}) = (X = {}) THEN "sub" ELSE "no"
MBuildVerdict(e) ==
    IF ~ ObsOK(e.d) THEN "malformed"
    ELSE LET P == Paths(e.d, A) IN MergeVerdict("build", <<>>, 0, e, e.mp, LAMBDA X : Rel(P, X))
(* DOT output of a merging specification: cut-off states have no way on and *)
(* superseded terminals are invisible, so exactly the survivors reach T     *)
MDotVerdict(e) ==
    IF ~ e.g.ok THEN "dot-syntax"
    ELSE IF ~ WellFormed(e.g, A) THEN "dot-malformed"
    ELSE IF tab[e.t].root # 0 /\ e.g.tops # 1 THEN "dot-terminal"
    ELSE LET P == Paths(e.g, A) IN
         IF MergeVerdict("build", <<>>, 0, e, FALSE, LAMBDA X : Rel(P, X)) = "" THEN "" ELSE "dot-merged-graph"
(* a merging specification as an operand of a specification operation *)
MOpVerdict(e) ==
    IF ~ ObsOK(e.d) THEN "malformed"
    ELSE LET P == Paths(e.d, A)
             D == IF e.f \in {"sub", "and"} THEN tab[e.u] ELSE <<>>
         IN MergeVerdict(e.f, D, e.n, e, e.mp, LAMBDA X : Rel(P, X))
MSubsetVerdict(h, e) ==
    IF ~ ObsOK(e.d) THEN "malformed"
    ELSE LET P == DenZ(e.d, A) IN
         MergeVerdict("sub", h.ref, 0, e, h.mp, LAMBDA X : Rel(P, { CodeOfPath(A, p) : p \in X }))

(***************************************************************************)
(* The actions.                                                            *)
(***************************************************************************)
Src(n) == IF n \in DOMAIN reg THEN reg[n].ref ELSE tab[n]

Step ==
    LET e == Ev[l + 1]
        put(v, h) == bad' = v /\ tab' = tab /\ reg' = (IF v = "" THEN Set(reg, e.r, h) ELSE reg)
        see(v) == bad' = v /\ UNCHANGED <<tab, reg>>
    IN
    CASE e.op = "tab"   -> tab' = Set(tab, e.r, e.d) /\ UNCHANGED reg /\ bad' = (IF WellFormed(e.d, A) THEN "" ELSE "HARNESS-table")
      [] e.op = "build" -> put(BuildVerdict(tab[e.t], e.d), Handle(e.d, "n", e.mp))
      [] e.op = "rebuild" -> put(BuildVerdict(reg[e.s].ref, e.d), Handle(e.d, "n", e.mp))
      [] e.op = "univ"  -> put(UnivVerdict(e.n, e.d), Handle(e.d, "n", e.mp))
      [] e.op = "none"  -> put(IF ObsOK(e.d) /\ e.d.root = 0 /\ e.d.size = 0 THEN "" ELSE "default", Handle(e.d, "n", FALSE))
      [] e.op \in {"copy", "asg"} ->
             put(IF ObsOK(e.d) /\ Graph(e.d) = reg[e.s].ref THEN "" ELSE "copy", reg[e.s])
      [] e.op = "sub"   -> put(IF ObsOK(e.d) /\ Isomorphic(SubAt(reg[e.s].ref, e.path), e.d, A) THEN "" ELSE "subdiagram",
                               HandleSub(e.d, "n", reg[e.s].mp))
      [] e.op = "leak"  -> see(IF DOMAIN reg # {} \/ e.n = 0 THEN "" ELSE "leak")
      [] e.op = "swap"  -> /\ bad' = (IF Graph(e.d) = reg[e.s].ref /\ Graph(e.d2) = reg[e.r].ref THEN "" ELSE "swap")
                           /\ reg' = Set(Set(reg, e.r, reg[e.s]), e.s, reg[e.r])
                           /\ UNCHANGED tab
      [] e.op = "drop"  -> reg' = Drop(reg, e.r) /\ bad' = "" /\ UNCHANGED tab
      [] e.op = "mp"    -> /\ bad' = (IF e.old = reg[e.r].mp THEN "" ELSE "mp-flag")
                           /\ reg' = Set(reg, e.r, [reg[e.r] EXCEPT !.mp = e.flag]) /\ UNCHANGED tab
      [] e.op = "dump"  -> see(IF ObsOK(e.d) /\ Graph(e.d) = reg[e.r].ref THEN "" ELSE "changed-without-operation")
      [] e.op = "red"   -> put(ReduceVerdict(reg[e.r], e.k, e.d),
                               [Handle(e.d, e.k, reg[e.r].mp) EXCEPT !.sub = reg[e.r].sub])
      [] e.op = "subset"-> put(SubsetVerdict(reg[e.r], tab[e.t], e.d), Handle(e.d, "n", reg[e.r].mp))
      [] e.op = "subsetr" -> put(SubsetVerdict(reg[e.r], reg[e.s].ref, e.d), Handle(e.d, "n", reg[e.r].mp))
      [] e.op = "op"    -> put(OpVerdict(e.f, [k \in 1..Len(e.args) |-> Src(e.args[k])], e.d), Handle(e.d, "n", e.mp))
      [] e.op = "look"  -> put(LookVerdict(e.k, Src(e.t), e.d), Handle(e.d, "n", e.mp))
      [] e.op = "unred" -> put(UnredVerdict(e.k, Src(e.t), e.n, e.d), Handle(e.d, "n", e.mp))
      [] e.op \in {"b2z", "z2b"} -> put(ConvVerdict(e.op, reg[e.s].ref, e.n, e.d), Handle(e.d, "n", reg[e.s].mp))
      [] e.op = "eq"    -> see(EqVerdict(reg[e.r], reg[e.s], e))
      [] e.op = "card"  -> see(IF e.c = CountZ(reg[e.r].ref, A) THEN "" ELSE "cardinality")
      [] e.op = "bcard" -> see(IF e.c = CountB(reg[e.r].ref, A, e.n) THEN "" ELSE "bdd-cardinality")
      [] e.op = "cardn" -> see(LET z == CountZ(reg[e.r].ref, A) b == CountB(reg[e.r].ref, A, e.n) IN
                               IF e.zi = z /\ e.zd = z /\ e.bi = b /\ e.bl = b THEN "" ELSE "numeric-cardinality")
      [] e.op = "iter"  -> see(IterVerdict(reg[e.r], e))
      [] e.op = "eval"  -> see(IF ~ ObsOK(e.d) \/ Graph(e.d) # reg[e.r].ref THEN "changed-without-operation" ELSE EvalVerdict(e))
      [] e.op = "wts"   -> see("")
      [] e.op = "mbuild" -> put(MBuildVerdict(e), Handle(e.d, "n", e.mp))
      [] e.op = "mop" -> put(MOpVerdict(e), Handle(e.d, "n", e.mp))
      [] e.op = "msubset" -> put(MSubsetVerdict(reg[e.r], e), Handle(e.d, "n", reg[e.r].mp))
      [] e.op = "pcnt"  -> see(LET n == CountZ(Src(e.t), A) IN
                               IF e.c # n THEN "path-count"
                               ELSE IF e.f # n THEN "fast-path-count"
                               ELSE IF Len(n) <= 4 /\ e.q # n THEN "64-bit-path-count" ELSE "")
      [] e.op = "dot"   -> see(DotVerdict(IF e.wrap = "bl" THEN LookTab("b", Src(e.t)) ELSE IF e.wrap = "zl" THEN LookTab("z", Src(e.t)) ELSE Src(e.t), e))
      [] e.op = "mdot"  -> see(MDotVerdict(e))
      [] e.op = "dott"  -> see(IF Graph(e.d) # reg[e.r].ref THEN "changed-without-operation" ELSE DotTableVerdict(e))
      [] e.op = "sap"   -> see(IF Graph(e.d) # reg[e.r].ref THEN "changed-without-operation" ELSE SapVerdict(e))
      [] e.op = "gz"    -> put(BuildVerdict(Lowered(tab[e.t]), e.d), Handle(e.d, "n", FALSE))
      [] e.op = "one"   -> see(OneVerdict(Src(e.t), e))
      [] e.op = "bad"   -> see(IF e.n = 0 THEN "" ELSE "callback-with-foreign-state")
      [] OTHER          -> see("unexpected-" \o e.op)

Next == /\ bad = ""
        /\ l < Len(Ev)
        /\ l' = l + 1
        /\ cs' = cs
        /\ Step

Done == /\ bad = "" /\ l = Len(Ev) /\ UNCHANGED vars

Spec == Init /\ [][Next \/ Done]_vars

Accepted == bad = ""
=============================================================================
