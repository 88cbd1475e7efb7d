--------------------------------- MODULE Cnf ---------------------------------
(***************************************************************************)
(* The CNF applications: cnfbdd (clause sets as states of a BDD            *)
(* specification) and cnf2ztdd2bdd (the clauses as a ternary ZDD, evaluated*)
(* to a BDD).                                                              *)
(*                                                                         *)
(* A case is a DIMACS input: header <<nv, nc>> and the integers after it.  *)
(* Reading is a run over the integers (state: clauses read, clause being   *)
(* read, failure); the answers of the commands are judged against the      *)
(* models of the clauses read.                                             *)
(*                                                                         *)
(* Variable v sits at level nv - v + 1.  An assignment is the set of its   *)
(* true levels encoded as in DD; a clause as a ternary code (digit 1: the  *)
(* negative, 2: the positive literal).                                     *)
(***************************************************************************)
EXTENDS DD, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l, bad
vars == <<cs, l, bad>>
Init == cs \in 1..Len(Trace) /\ l = 0 /\ bad = ""
In == Trace[cs]
Ev == Trace[cs].ev

Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- reading ---- *)
Start == [cl |-> <<>>, cur |-> {}, n |-> 0, err |-> FALSE]
Read(nv, nc, s, x) ==
    IF s.err THEN s
    ELSE IF x = 0 THEN (IF s.cur = {} THEN s ELSE [s EXCEPT !.cl = Append(@, s.cur), !.cur = {}, !.n = @ + 1])
    ELSE IF Abs(x) > nv \/ s.n >= nc THEN [s EXCEPT !.err = TRUE]
    ELSE [s EXCEPT !.cur = @ \cup {x}]
Input(nv, nc, toks) ==
    LET s == FoldLeft(LAMBDA a, x : Read(nv, nc, a, x), Start, Append(toks, 0)) IN
    [cl |-> SelectSeq(s.cl, LAMBDA c : ~ \E x \in c : -x \in c),
     err |-> nv < 1 \/ nc < 1 \/ s.err \/ s.n < nc]

(* ---- meaning ---- *)
LevelOf(nv, v) == nv - v + 1
True(nv, code, lit) == (Digit(2, code, LevelOf(nv, Abs(lit))) = 1) = (lit > 0)
Models(nv, C) == { m \in 0..(Pow(2, nv) - 1) : \A c \in C : \E x \in c : True(nv, m, x) }
ClauseCode(nv, c) == FoldSet(LAMBDA x, a : a + (IF x > 0 THEN 2 ELSE 1) * Pow(3, nv - Abs(x)), 0, c)
ModelOf(nv, line) == FoldSet(LAMBDA k, a : IF line[k] > 0 THEN a + Pow(2, LevelOf(nv, k) - 1) ELSE a, 0, 1..nv)

(* the node's own family: the diagram with another root *)
Sub(D, k) == [root |-> k, nodes |-> D.nodes]
SetOf(q) == { q[k] : k \in 1..Len(q) }

(* the picture of a CNF: clauses in order, and which clauses are told apart *)
PictureVerdict(nv, cl, e) ==
    LET P == [k \in 1..Len(e.pic) |-> SetOf(e.pic[k])]
        rest(c, v) == { x \in c : Abs(x) >= v }
    IN IF ~ e.sorted /\ P # cl THEN "picture-clauses"
       ELSE IF SetOf(P) # SetOf(cl) THEN "picture-clauses"
       ELSE IF \E k \in 1..Len(e.map) :
                 LET v == e.map[k][1] IN rest(P[e.map[k][2]], v) # rest(P[e.map[k][3]], v) THEN "picture-mapping"
       ELSE ""

Verdict(e) ==
    LET nv == In.nv
        inp == Input(nv, In.nc, In.toks)
        cl == inp.cl
        C == SetOf(cl)
    IN IF e.crash # "" THEN "crash"
       ELSE IF e.err # (inp.err \/ e.badcli) THEN "reported-error"
       ELSE IF e.err THEN ""
       ELSE IF e.nvar # nv \/ e.nclause # Len(cl) THEN "reported-size"
       ELSE LET W == Models(nv, C) IN
            IF e.nsol # Cardinality(W) THEN "number-of-solutions"
            ELSE IF e.app = "ztdd" /\ e.ndist # Cardinality(C) THEN "number-of-clauses"
            ELSE IF e.out = "list" THEN
                 IF Len(e.list) # Cardinality(W) THEN "solutions-listed"
                 ELSE IF \E k \in 1..Len(e.list) : Len(e.list[k]) # nv \/ \E v \in 1..nv : Abs(e.list[k][v]) # v THEN "solution-syntax"
                 ELSE IF { ModelOf(nv, x) : x \in SetOf(e.list) } # W THEN "solutions-listed"
                 ELSE ""
            ELSE IF e.out \in {"bdd", "states"} THEN
                 IF ~ e.d.ok \/ ~ WellFormed(e.d, 2) THEN "diagram-malformed"
                 ELSE IF DenB(e.d, 2, nv) # W THEN "diagram-meaning"
                 ELSE IF e.out = "bdd" /\ ~ (\A k \in 1..Len(e.d.nodes) : e.d.nodes[k][2] # e.d.nodes[k][3]) THEN "diagram-redundant"
                 ELSE IF e.out = "bdd" /\ Cardinality(SetOf(e.d.nodes)) # Len(e.d.nodes) THEN "diagram-duplicate"
                 ELSE ""
            ELSE IF e.out \in {"clauses", "ztdd"} THEN
                 IF ~ e.d.ok \/ ~ WellFormed(e.d, 3) THEN "diagram-malformed"
                 ELSE IF DenZ(e.d, 3) # { ClauseCode(nv, c) : c \in C } THEN "diagram-meaning"
                 ELSE IF \E k \in 1..Len(e.states) :
                         DenZ(Sub(e.d, k + 1), 3) # { ClauseCode(nv, SetOf(c)) : c \in SetOf(e.states[k]) } THEN "state-label"
                 ELSE IF \E j, k \in 1..Len(e.states) : j < k /\ e.d.nodes[j][1] = e.d.nodes[k][1] /\ e.states[j] = e.states[k] THEN "state-duplicated"
                 ELSE IF \E k \in 1..Len(e.levels) : e.levels[k][2] # LevelOf(nv, e.levels[k][1]) THEN "level-label"
                 ELSE ""
            ELSE IF e.out = "cnf" THEN PictureVerdict(nv, cl, e)
            ELSE ""

Next == bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs /\ bad' = Verdict(Ev[l + 1])
Accepted == bad = ""
=============================================================================
