------------------------------ MODULE MpBuild ------------------------------
(***************************************************************************)
(* The parallel breadth-first construction of a diagram from a top-down    *)
(* specification (DdBuilderMP), as a system of threads.                     *)
(*                                                                         *)
(* One level is built by one parallel region:                              *)
(*   uniq    tasks are handed out dynamically; the owner of a task gives   *)
(*           equal states of that task one code (tasks partition states by *)
(*           hash, so equal states meet in one task)                       *)
(*   --- barrier ---                                                       *)
(*   single  one thread lays out the new row                               *)
(*   --- barrier ---                                                       *)
(*   expand  tasks are handed out again; their entries resolve the pointer *)
(*           that scheduled them, the representative of each state becomes *)
(*           a node and schedules its children on the thread's own lists   *)
(*   --- barrier ---                                                       *)
(*   clear   (subsetting only) each thread drops its own lists             *)
(*   lowest  the lowest child level is combined under a lock               *)
(*   --- join ---                                                          *)
(*                                                                         *)
(* Checked for every interleaving: no two threads touch the same object    *)
(* between two barriers unless both only read it (NoConflict), and the     *)
(* finished rows are exactly the serial result: one node per reachable     *)
(* state of the level, with the right children (Serial).                   *)
(*                                                                         *)
(* W1, W2, W3, LK switch the three barriers and the lock; with any of      *)
(* them off the model must fail (negative controls).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NT, NX, W1, W2, W3, LK, CLR, TABLE

Threads == 0..(NT - 1)
Tasks == 0..(NX - 1)

(* the specification: state id (>= 2) |-> <<level, child0, child1>>; 0 and 1 are terminals *)
Spec1 == << <<1, 0, 1>>, <<1, 1, 1>>, <<2, 2, 3>>, <<2, 3, 2>>, <<3, 4, 5>> >>
Spec2 == << <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>>, <<2, 2, 3>>, <<3, 4, 5>>, <<3, 5, 2>>, <<4, 6, 7>> >>
Spec3 == << <<1, 0, 1>>, <<1, 1, 0>>, <<2, 2, 3>>, <<3, 2, 4>>, <<3, 4, 3>>, <<4, 5, 6>> >>
Rows == IF TABLE = 1 THEN Spec1 ELSE IF TABLE = 2 THEN Spec2 ELSE Spec3
Ids == 2..(Len(Rows) + 1)
LevOf(s) == IF s < 2 THEN 0 ELSE Rows[s - 1][1]
ChildOf(s, b) == Rows[s - 1][2 + b]
RootId == Len(Rows) + 1
Top == LevOf(RootId)
Hash(s) == s % NX
Levels == 1..Top

VARIABLES lev, pc, lists, nextX, cur, col, out, ptr, low, lck, touch, arr, sing, joined
vars == <<lev, pc, lists, nextX, cur, col, out, ptr, low, lck, touch, arr, sing, joined>>

(* entry of a list: the state, the pointer that scheduled it, its code *)
Ent(s, p) == [st |-> s, src |-> p, c |-> 0]
Idle == [x |-> -1, y |-> 0, k |-> 1, u |-> <<>>, j |-> 0, b |-> 0, q |-> <<>>]

Init ==
    /\ lev = Top
    /\ pc = [y \in Threads |-> "uniq"]
    /\ lists = [y \in Threads |-> [x \in Tasks |-> [i \in Levels |->
            IF y = 0 /\ x = 0 /\ i = Top THEN <<Ent(RootId, <<0, 0, 0>>)>> ELSE <<>>]]]
    /\ nextX = [p \in {1, 2} |-> 0]
    /\ cur = [y \in Threads |-> [Idle EXCEPT !.j = lev - 1]]
    /\ col = [x \in Tasks |-> 0]
    /\ out = [i \in Levels |-> <<>>]
    /\ ptr = << >>
    /\ low = lev - 1 /\ lck = -1 /\ touch = {} /\ arr = [p \in 1..4 |-> {}] /\ sing = -1 /\ joined = 0

Acc(y, objs) == touch' = touch \cup { <<y, o[1], o[2]>> : o \in objs }
R(o) == <<o, "r">>
W(o) == <<o, "w">>

(* lc of a thread is kept in lc[y]: cur[y].j is reused per task, so lc lives in cur.q *)
Claim(y, ph, here, next) ==
    /\ pc[y] = here /\ cur[y].x = -1
    /\ IF nextX[ph] < NX
       THEN /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.x = nextX[ph], !.y = 0, !.k = 1, !.u = <<>>, !.j = 0, !.b = 0]]
            /\ nextX' = [nextX EXCEPT ![ph] = @ + 1]
            /\ UNCHANGED pc
       ELSE /\ pc' = [pc EXCEPT ![y] = next] /\ UNCHANGED <<cur, nextX>>
    /\ UNCHANGED <<lev, lists, col, out, ptr, low, lck, touch, arr, sing, joined>>

CodeOf(u, s) == LET f == SelectSeq(u, LAMBDA e : e[1] = s) IN IF f = <<>> THEN 0 ELSE f[1][2]

(* phase 1: one entry of the claimed task *)
Uniq(y) ==
    /\ pc[y] = "uniq" /\ cur[y].x >= 0
    /\ LET t == cur[y]
           L == lists[t.y][t.x][lev]
       IN IF t.k <= Len(L)
          THEN LET s == L[t.k].st
                   c == CodeOf(t.u, s)
               IN /\ lists' = [lists EXCEPT ![t.y][t.x][lev][t.k].c = IF c = 0 THEN t.j + 1 ELSE 0 - c]
                  /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.k = @ + 1, !.j = IF c = 0 THEN @ + 1 ELSE @,
                                                        !.u = IF c = 0 THEN Append(@, <<s, t.j + 1>>) ELSE @]]
                  /\ Acc(y, {W(<<"list", t.y, t.x, lev>>)})
                  /\ UNCHANGED col
          ELSE IF t.y + 1 < NT
          THEN /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.y = @ + 1, !.k = 1]]
               /\ Acc(y, {R(<<"list", t.y, t.x, lev>>)})
               /\ UNCHANGED <<lists, col>>
          ELSE /\ col' = [col EXCEPT ![t.x] = t.j]
               /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.x = -1]]
               /\ Acc(y, {W(<<"col", t.x>>), R(<<"list", t.y, t.x, lev>>)})
               /\ UNCHANGED lists
    /\ UNCHANGED <<lev, pc, nextX, out, ptr, low, lck, arr, sing, joined>>

(* barriers: on = FALSE lets a thread pass at once *)
Arrive(y, k, here, wait, on, next) ==
    /\ pc[y] = here
    /\ IF on
       THEN IF arr[k] \cup {y} = Threads
            THEN /\ pc' = [z \in Threads |-> IF z = y \/ pc[z] = wait THEN next ELSE pc[z]]
                 /\ touch' = {}                      \* everything before is ordered before everything after
                 /\ arr' = [arr EXCEPT ![k] = {}]
            ELSE /\ pc' = [pc EXCEPT ![y] = wait] /\ arr' = [arr EXCEPT ![k] = @ \cup {y}] /\ UNCHANGED touch
       ELSE /\ pc' = [pc EXCEPT ![y] = next] /\ UNCHANGED <<touch, arr>>
    /\ UNCHANGED <<lev, lists, nextX, cur, col, out, ptr, low, lck, sing, joined>>

Base(c, x) == LET RECURSIVE Sum(_) Sum(z) == IF z = 0 THEN 0 ELSE Sum(z - 1) + c[z - 1] IN Sum(x)

Single(y) ==
    /\ pc[y] = "single"
    /\ IF sing = -1
       THEN /\ sing' = y
            /\ col' = [x \in Tasks |-> Base(col, x)]
            /\ out' = [out EXCEPT ![lev] = [j \in 1..Base(col, NX) |-> [st |-> 0, ch |-> <<0, 0>>]]]
            /\ Acc(y, { W(<<"col", x>>) : x \in Tasks } \cup {W(<<"row", lev>>)})
       ELSE UNCHANGED <<sing, col, out, touch>>
    /\ pc' = [pc EXCEPT ![y] = "bar2"]
    /\ UNCHANGED <<lev, lists, nextX, cur, ptr, low, lck, arr, joined>>

(* phase 2: pop one entry and resolve its pointer, or schedule one child *)
SetPtr(p, v) == (p :> v) @@ ptr
Expand(y) ==
    /\ pc[y] = "expand" /\ cur[y].x >= 0
    /\ LET t == cur[y]
           L == lists[t.y][t.x][lev]
           j0 == col[t.x]
       IN IF t.b = 0 /\ L = <<>>
          THEN IF t.y + 1 < NT
               THEN /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.y = @ + 1]]
                    /\ Acc(y, {R(<<"list", t.y, t.x, lev>>)}) /\ UNCHANGED <<lists, out, ptr>>
               ELSE /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.x = -1]]
                    /\ Acc(y, {R(<<"list", t.y, t.x, lev>>)}) /\ UNCHANGED <<lists, out, ptr>>
          ELSE IF t.b = 0
          THEN LET e == L[1]
                   jj == j0 + (IF e.c < 0 THEN 0 - e.c ELSE e.c)
               IN /\ ptr' = SetPtr(e.src, <<lev, jj>>)
                  /\ IF e.c < 0
                     THEN /\ lists' = [lists EXCEPT ![t.y][t.x][lev] = Tail(@)]
                          /\ UNCHANGED <<cur, out>>
                     ELSE /\ jj \in DOMAIN out[lev]
                          /\ out' = [out EXCEPT ![lev][jj].st = e.st]
                          /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.b = 1, !.k = jj]]
                          /\ UNCHANGED lists
                  /\ Acc(y, {W(<<"list", t.y, t.x, lev>>), W(<<"ptr", e.src>>), R(<<"col", t.x>>)})
          ELSE LET s == out[lev][t.k].st
                   v == ChildOf(s, t.b - 1)
                   i == LevOf(v)
                   last == t.b = 2
                   me == <<lev, t.k, t.b>>
                   pop == IF last THEN [lists EXCEPT ![t.y][t.x][lev] = Tail(@)] ELSE lists
               IN /\ IF i = 0
                     THEN ptr' = SetPtr(me, <<0, v>>) /\ lists' = pop
                     ELSE lists' = [pop EXCEPT ![y][Hash(v)][i] = <<Ent(v, me)>> \o @] /\ UNCHANGED ptr
                  /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.b = IF last THEN 0 ELSE 2, !.q = IF i > 0 THEN Append(@, i) ELSE @]]
                  /\ Acc(y, {W(<<"list", t.y, t.x, lev>>)} \cup
                            (IF i = 0 THEN {W(<<"ptr", me>>)} ELSE {W(<<"list", y, Hash(v), i>>)}))
                  /\ UNCHANGED out
    /\ UNCHANGED <<lev, pc, nextX, col, low, lck, arr, sing, joined>>

(* subsetting (CLR) keeps the entries until all are expanded: each thread drops its own lists *)
Clear(y) ==
    /\ pc[y] = "clear"
    /\ pc' = [pc EXCEPT ![y] = "low"]
    /\ IF CLR
       THEN /\ lists' = [lists EXCEPT ![y] = [x \in Tasks |-> [@[x] EXCEPT ![lev] = <<>>]]]
            /\ Acc(y, { W(<<"list", y, x, lev>>) : x \in Tasks })
       ELSE UNCHANGED <<lists, touch>>
    /\ UNCHANGED <<lev, nextX, cur, col, out, ptr, low, lck, arr, sing, joined>>

SeqMin(q, d) == LET S == { q[k] : k \in 1..Len(q) } \cup {d} IN CHOOSE m \in S : \A n \in S : m <= n
(* the lowest child level: read, then write, between lock and unlock *)
Lowest(y) ==
    \/ /\ pc[y] = "low" /\ (LK => lck = -1)
       /\ lck' = IF LK THEN y ELSE lck
       /\ pc' = [pc EXCEPT ![y] = IF SeqMin(cur[y].q, lev - 1) < low THEN "low2" ELSE "low3"]
       /\ (IF LK THEN UNCHANGED touch ELSE Acc(y, {R(<<"low">>)}))
       /\ UNCHANGED low
       /\ UNCHANGED <<lev, lists, nextX, cur, col, out, ptr, arr, sing, joined>>
    \/ /\ pc[y] = "low2"
       /\ low' = SeqMin(cur[y].q, lev - 1)
       /\ pc' = [pc EXCEPT ![y] = "low3"]
       /\ (IF LK THEN UNCHANGED touch ELSE Acc(y, {W(<<"low">>)}))
       /\ UNCHANGED <<lev, lists, nextX, cur, col, out, ptr, lck, arr, sing, joined>>
    \/ /\ pc[y] = "low3"
       /\ lck' = IF lck = y THEN -1 ELSE lck
       /\ pc' = [pc EXCEPT ![y] = "end"]
       /\ UNCHANGED <<lev, lists, nextX, cur, col, out, ptr, low, touch, arr, sing, joined>>

(* all threads joined: the next level *)
Join ==
    /\ \A y \in Threads : pc[y] = "end"
    /\ lev > 0
    /\ lev' = lev - 1
    /\ pc' = [y \in Threads |-> IF lev > 1 THEN "uniq" ELSE "stop"]
    /\ cur' = [y \in Threads |-> Idle]
    /\ nextX' = [p \in {1, 2} |-> 0]
    /\ col' = [x \in Tasks |-> 0]
    /\ low' = lev - 2 /\ touch' = {} /\ sing' = -1 /\ joined' = low
    /\ UNCHANGED <<lists, out, ptr, lck, arr>>

Next ==
    \/ \E y \in Threads :
        \/ Claim(y, 1, "uniq", "bar1") \/ Uniq(y)
        \/ Arrive(y, 1, "bar1", "wait1", W1, "single")
        \/ Single(y)
        \/ Arrive(y, 2, "bar2", "wait2", W2, "expand")
        \/ Claim(y, 2, "expand", "bar3") \/ Expand(y)
        \/ Arrive(y, 3, "bar3", "wait3", W3, "clear")
        \/ Clear(y)
        \/ Lowest(y)
    \/ Join
    \/ (lev = 0 /\ UNCHANGED vars)

Sys == Init /\ [][Next]_vars

(* ---- properties ---- *)
NoConflict ==
    \A a \in touch : \A b \in touch : a[1] # b[1] /\ a[2] = b[2] => a[3] = "r" /\ b[3] = "r"

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup { v \in { ChildOf(s, b) : s \in S, b \in {0, 1} } : v >= 2 } IN IF T = S THEN S ELSE Reach(T)
Reachable == Reach({RootId})
RowStates(i) == { out[i][j].st : j \in DOMAIN out[i] }
Serial ==
    lev = 0 =>
    /\ \A i \in Levels : RowStates(i) = { s \in Reachable : LevOf(s) = i } /\ Len(out[i]) = Cardinality(RowStates(i))
    /\ LET node == [s \in Reachable |-> <<LevOf(s), CHOOSE j \in DOMAIN out[LevOf(s)] : out[LevOf(s)][j].st = s>>]
           val(v) == IF v < 2 THEN <<0, v>> ELSE node[v]
       IN /\ ptr[<<0, 0, 0>>] = node[RootId]
          /\ \A s \in Reachable : \A b \in {0, 1} : ptr[<<node[s][1], node[s][2], b + 1>>] = val(ChildOf(s, b))
(* what the sweeper is told about a finished level *)
LowRight ==
    (\A y \in Threads : pc[y] = "end") /\ lev > 0 =>
    LET S == { LevOf(ChildOf(s, b)) : s \in RowStates(lev), b \in {0, 1} } \ {0}
    IN low = IF S = {} THEN lev - 1 ELSE SeqMin(<<>>, CHOOSE m \in S : \A n \in S : m <= n)
(* every list of a finished level is empty: nothing is lost or kept *)
Drained == \A y \in Threads : \A x \in Tasks : \A i \in Levels : i > lev => lists[y][x][i] = <<>>
=============================================================================
