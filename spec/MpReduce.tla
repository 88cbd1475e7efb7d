------------------------------ MODULE MpReduce ------------------------------
(***************************************************************************)
(* Parallel reduction of one level (DdReducer::reduceMP_) as a system of   *)
(* threads.                                                                *)
(*   scan    the nodes of the level are split into blocks; a thread maps   *)
(*           the children of its nodes to their new identities, gives      *)
(*           redundant nodes their replacement and queues the others on    *)
(*           its own list for the task chosen by their hash                *)
(*   --- barrier ---                                                       *)
(*   single  the identities of the levels below are dropped                *)
(*   --- barrier ---                                                       *)
(*   uniq    tasks are handed out dynamically; equal nodes meet in one     *)
(*           task and get one (task, index) name                           *)
(*   --- barrier ---                                                       *)
(*   clear   every thread empties its own lists                            *)
(*   single  task sizes become base columns; the new row is laid out       *)
(*   --- barrier ---                                                       *)
(*   copy    blocks again: names become columns, nodes move to the row     *)
(*   --- join ---                                                          *)
(* Checked for every interleaving: NoConflict (no unordered conflicting    *)
(* accesses) and Canonical (the row holds every distinct irredundant node  *)
(* exactly once, and each old node is mapped to its own content).          *)
(* W1..W4 switch the barriers; without W1, W3 or W4 the model must fail    *)
(* (W2 turns out not to be needed: the single only drops lower levels).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NX, W1, W2, W3, W4, LEVEL, ZDD

Threads == 0..(NT - 1)
Tasks == 0..(NX - 1)
(* old nodes of the level: pairs of old child names; newOf maps old names of the level below *)
Olds == IF LEVEL = 1 THEN << <<"a", "b">>, <<"c", "b">>, <<"b", "0">>, <<"b", "a">> >>
        ELSE IF LEVEL = 2 THEN << <<"a", "b">>, <<"b", "0">>, <<"c", "b">>, <<"0", "0">>, <<"b", "c">>, <<"b", "a">> >>
        ELSE << <<"a", "a">>, <<"b", "c">>, <<"c", "c">>, <<"b", "a">>, <<"0", "b">> >>
NewOf == ("a" :> "A") @@ ("b" :> "B") @@ ("c" :> "A") @@ ("0" :> "0")
M == Len(Olds)
Content(j) == << NewOf[Olds[j][1]], NewOf[Olds[j][2]] >>
Redundant(n) == IF ZDD THEN n[2] = "0" ELSE n[1] = "0" /\ n[2] = "0"
Code(s) == CASE s = "A" -> 1 [] s = "B" -> 2 [] OTHER -> 0
Hash(n) == (Code(n[1]) * 2 + Code(n[2])) % NX
Block(y) == { j \in 1..M : ((j - 1) * NT) \div M = y }     \* static schedule
Low == <<"low">>

VARIABLES pc, i, lists, newId, base, low, next, cur, out, touch, arr, sing
vars == <<pc, i, lists, newId, base, low, next, cur, out, touch, arr, sing>>
Init == /\ pc = [y \in Threads |-> "scan"]
        /\ i = [y \in Threads |-> 0]
        /\ lists = [y \in Threads |-> [x \in Tasks |-> <<>>]]
        /\ newId = [j \in 1..M |-> <<"none">>]
        /\ base = [x \in 0..NX |-> 0]
        /\ low = TRUE /\ next = 0
        /\ cur = [y \in Threads |-> [x |-> -1, yy |-> 0, k |-> 1, u |-> <<>>]]
        /\ out = <<>> /\ touch = {} /\ arr = [k \in 1..4 |-> {}] /\ sing = [k \in 1..2 |-> -1]

Acc(y, objs) == touch' = touch \cup { <<y, o[1], o[2]>> : o \in objs }
R(o) == <<o, "r">>
W(o) == <<o, "w">>
Nth(S, k) == CHOOSE j \in S : Cardinality({ a \in S : a < j }) = k

Scan(y) ==
    /\ pc[y] = "scan"
    /\ IF i[y] < Cardinality(Block(y))
       THEN LET j == Nth(Block(y), i[y])
                n == Content(j)
            IN /\ i' = [i EXCEPT ![y] = @ + 1] /\ UNCHANGED pc
               /\ IF Redundant(n)
                  THEN newId' = [newId EXCEPT ![j] = <<"gone", n[1]>>] /\ UNCHANGED lists
                       /\ Acc(y, {R(Low), W(<<"node", j>>), W(<<"id", j>>)})
                  ELSE lists' = [lists EXCEPT ![y][Hash(n)] = <<j>> \o @] /\ UNCHANGED newId
                       /\ Acc(y, {R(Low), W(<<"node", j>>), W(<<"list", y, Hash(n)>>)})
       ELSE pc' = [pc EXCEPT ![y] = "bar1"] /\ UNCHANGED <<i, newId, lists, touch>>
    /\ UNCHANGED <<base, low, next, cur, out, arr, sing>>

Arrive(y, k, here, wait, on, nxt) ==
    /\ pc[y] = here
    /\ IF on
       THEN IF arr[k] \cup {y} = Threads
            THEN /\ pc' = [z \in Threads |-> IF z = y \/ pc[z] = wait THEN nxt ELSE pc[z]]
                 /\ touch' = {} /\ arr' = [arr EXCEPT ![k] = {}]
            ELSE /\ pc' = [pc EXCEPT ![y] = wait] /\ arr' = [arr EXCEPT ![k] = @ \cup {y}] /\ UNCHANGED touch
       ELSE pc' = [pc EXCEPT ![y] = nxt] /\ UNCHANGED <<touch, arr>>
    /\ UNCHANGED <<i, lists, newId, base, low, next, cur, out, sing>>

Single1(y) ==
    /\ pc[y] = "single1"
    /\ pc' = [pc EXCEPT ![y] = "bar2"]
    /\ IF sing[1] = -1
       THEN sing' = [sing EXCEPT ![1] = y] /\ low' = FALSE /\ Acc(y, {W(Low)})
       ELSE UNCHANGED <<sing, low, touch>>
    /\ UNCHANGED <<i, lists, newId, base, next, cur, out, arr>>

Claim(y) ==
    /\ pc[y] = "uniq" /\ cur[y].x = -1
    /\ IF next < NX
       THEN cur' = [cur EXCEPT ![y] = [x |-> next, yy |-> 0, k |-> 1, u |-> <<>>]] /\ next' = next + 1 /\ UNCHANGED pc
       ELSE pc' = [pc EXCEPT ![y] = "bar3"] /\ UNCHANGED <<cur, next>>
    /\ UNCHANGED <<i, lists, newId, base, low, out, touch, arr, sing>>
Uniq(y) ==
    /\ pc[y] = "uniq" /\ cur[y].x >= 0
    /\ LET t == cur[y]
           L == lists[t.yy][t.x]
       IN IF t.k <= Len(L)
          THEN LET j == L[t.k]
                   same == { k \in 1..Len(t.u) : Content(t.u[k]) = Content(j) }
               IN /\ newId' = [newId EXCEPT ![j] = IF same = {} THEN <<"task", t.x, Len(t.u)>> ELSE newId[t.u[CHOOSE k \in same : TRUE]]]
                  /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.k = @ + 1, !.u = IF same = {} THEN Append(@, j) ELSE @]]
                  /\ Acc(y, {R(<<"list", t.yy, t.x>>), R(<<"node", j>>), W(<<"id", j>>)})
                  /\ UNCHANGED base
          ELSE IF t.yy + 1 < NT
          THEN cur' = [cur EXCEPT ![y] = [@ EXCEPT !.yy = @ + 1, !.k = 1]]
               /\ Acc(y, {R(<<"list", t.yy, t.x>>)}) /\ UNCHANGED <<newId, base>>
          ELSE base' = [base EXCEPT ![t.x + 1] = Len(t.u)] /\ cur' = [cur EXCEPT ![y] = [@ EXCEPT !.x = -1]]
               /\ Acc(y, {R(<<"list", t.yy, t.x>>), W(<<"base", t.x + 1>>)}) /\ UNCHANGED newId
    /\ UNCHANGED <<pc, i, lists, low, next, out, arr, sing>>
Clear(y) ==
    /\ pc[y] = "clear"
    /\ pc' = [pc EXCEPT ![y] = "single2"]
    /\ lists' = [lists EXCEPT ![y] = [x \in Tasks |-> <<>>]]
    /\ Acc(y, { W(<<"list", y, x>>) : x \in Tasks })
    /\ UNCHANGED <<i, newId, base, low, next, cur, out, arr, sing>>
RECURSIVE Sum(_, _)
Sum(b, x) == IF x = 0 THEN b[0] ELSE b[x] + Sum(b, x - 1)
Single2(y) ==
    /\ pc[y] = "single2"
    /\ pc' = [pc EXCEPT ![y] = "bar4"]
    /\ i' = [i EXCEPT ![y] = 0]
    /\ IF sing[2] = -1
       THEN /\ sing' = [sing EXCEPT ![2] = y]
            /\ base' = [x \in 0..NX |-> Sum(base, x)]
            /\ out' = [k \in 1..Sum(base, NX) |-> <<"?", "?">>]
            /\ Acc(y, { W(<<"base", x>>) : x \in 0..NX } \cup {W(<<"row", k>>) : k \in 1..Sum(base, NX)})
       ELSE UNCHANGED <<sing, base, out, touch>>
    /\ UNCHANGED <<lists, newId, low, next, cur, arr>>
(* a node that shares its name with others is copied by each of them: same content *)
Copy(y) ==
    /\ pc[y] = "copy"
    /\ IF i[y] < Cardinality(Block(y))
       THEN LET j == Nth(Block(y), i[y]) IN
            /\ i' = [i EXCEPT ![y] = @ + 1] /\ UNCHANGED pc
            /\ IF newId[j][1] # "task"
               THEN Acc(y, {R(<<"id", j>>)}) /\ UNCHANGED <<newId, out>>
               ELSE LET c == base[newId[j][2]] + newId[j][3] + 1 IN
                    /\ newId' = [newId EXCEPT ![j] = <<"col", c>>]
                    /\ out' = IF c \in DOMAIN out THEN [out EXCEPT ![c] = Content(j)] ELSE out
                    /\ Acc(y, {W(<<"id", j>>), R(<<"node", j>>), R(<<"base", newId[j][2]>>), W(<<"row", c, Content(j)>>)})
       ELSE pc' = [pc EXCEPT ![y] = "end"] /\ UNCHANGED <<i, newId, out, touch>>
    /\ UNCHANGED <<lists, base, low, next, cur, arr, sing>>

Next ==
    \/ \E y \in Threads :
        \/ Scan(y) \/ Arrive(y, 1, "bar1", "wait1", W1, "single1")
        \/ Single1(y) \/ Arrive(y, 2, "bar2", "wait2", W2, "uniq")
        \/ Claim(y) \/ Uniq(y) \/ Arrive(y, 3, "bar3", "wait3", W3, "clear")
        \/ Clear(y) \/ Single2(y) \/ Arrive(y, 4, "bar4", "wait4", W4, "copy")
        \/ Copy(y)
    \/ ((\A y \in Threads : pc[y] = "end") /\ UNCHANGED vars)
Sys == Init /\ [][Next]_vars

NoConflict ==
    \A a \in touch : \A b \in touch :
        (a[1] # b[1] /\ a[2] = b[2] /\ ~ (a[2][1] = "row" /\ Len(a[2]) = 3)) => a[3] = "r" /\ b[3] = "r"
(* concurrent writes to one place of the row always write the same node *)
SameContent ==
    \A a \in touch : \A b \in touch :
        (a[2][1] = "row" /\ Len(a[2]) = 3 /\ b[2][1] = "row" /\ Len(b[2]) = 3 /\ a[2][2] = b[2][2]) => a[2][3] = b[2][3]
LowUse == \A y \in Threads : pc[y] = "scan" /\ i[y] < Cardinality(Block(y)) => low
Canonical ==
    (\A y \in Threads : pc[y] = "end") =>
    LET keep == { j \in 1..M : ~ Redundant(Content(j)) } IN
    /\ Len(out) = Cardinality({ Content(j) : j \in keep })
    /\ { out[k] : k \in DOMAIN out } = { Content(j) : j \in keep }
    /\ \A j \in keep : newId[j][1] = "col" /\ out[newId[j][2]] = Content(j)
    /\ \A j \in (1..M) \ keep : newId[j] = <<"gone", Content(j)[1]>>
Drained == (\A y \in Threads : pc[y] = "end") => \A y \in Threads : \A x \in Tasks : lists[y][x] = <<>>
=============================================================================
