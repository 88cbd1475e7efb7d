----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The containers under the diagrams, as abstract data types: a session    *)
(* has a bank of objects of one kind; every operation is a transition of   *)
(* the bank and every observation recorded from the library has to be the  *)
(* one the abstract state determines.                                      *)
(*   vec    MyVector      sequence of owning elements, exact lifetimes     *)
(*   tab    MyHashTable   partial map key -> payload (first one wins)      *)
(*   map    MyHashMap     partial map key -> value                         *)
(*   list   MyList, MyListOnPool   stack of memory blocks with contents    *)
(*   pool   MemoryPool    set of live, disjoint memory regions             *)
(*   bit    MyBitSet, MyBitSetOnPool   set of small numbers                *)
(*   small  MySmallSet, MySmallSetOnPool   bounded sorted set              *)
(*   dtab   DataTable     sequence of rows                                 *)
(*   range  IntRange      arithmetic progression                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cs, l, bad
vars == <<cs, l, bad>>

Bool(b) == IF b THEN 1 ELSE 0
Cut(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> 0]
Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SeqSum(f, n) == FoldLeft(LAMBDA acc, i : acc + f[i], 0, [i \in 1..n |-> i])

-----------------------------------------------------------------------------
(* a step is <<bank, verdict>> *)
VecStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        total(kk) == SeqSum([i \in 1..Len(kk) |-> Len(kk[i])], Len(kk))
        Fin(kk, ok) ==
            <<kk, CASE ~ok -> "answer"
                    [] e.s # kk[e.a] -> "contents"
                    [] e.u # <<Len(kk[e.a]), Bool(kk[e.a] = <<>>), 1>> -> "size"
                    [] e.live # total(kk) -> "element lifetimes"
                    [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], TRUE)
    IN CASE e.o = "new" -> Set(IF e.x < 0 THEN <<>> ELSE Zeros(e.x))
         [] e.o = "newv" -> Set([i \in 1..e.x |-> e.y])
         [] e.o \in {"copy", "asg"} -> Set(b)
         [] e.o = "std" -> Set(e.q)
         [] e.o = "swap" -> Fin([k EXCEPT ![e.a] = b, ![e.b] = a], TRUE)
         [] e.o = "rsv" -> Fin(k, e.r = 1)
         [] e.o = "init" -> Set(Zeros(e.x))
         [] e.o = "rsz" -> Set(Cut(a, e.x))
         [] e.o = "er1" -> Fin([k EXCEPT ![e.a] = SubSeq(a, 1, e.x) \o SubSeq(a, e.x + 2, Len(a))], e.r = e.x)
         [] e.o = "er2" -> Fin([k EXCEPT ![e.a] = SubSeq(a, 1, e.x) \o SubSeq(a, e.y + 1, Len(a))], e.r = e.x)
         [] e.o = "clr" -> Set(<<>>)
         [] e.o = "push" -> Set(Append(a, e.x))
         [] e.o = "pusho" -> Set(Append(a, a[e.x + 1]))
         [] e.o = "pushn" -> Set(a \o [i \in 1..e.x |-> e.y + i - 1])
         [] e.o = "pop" -> Set(IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1))
         [] e.o = "set" -> Set([a EXCEPT ![e.x + 1] = e.y])
         [] e.o = "back" -> Fin(k, e.r = a[Len(a)])
         [] e.o = "eq" -> Fin(k, e.r = Bool(a = b))
         [] e.o = "hash" -> Fin(k, a = b => e.r = 1)
         [] e.o = "it" -> Fin(k, e.t = <<a, a, Rev(a), Rev(a), a>>)
         [] e.o = "see" -> Fin(k, TRUE)

(* partial maps as sets of pairs *)
Keys(m) == {p[1] : p \in m}
At(m, key) == IF key \in Keys(m) THEN (CHOOSE p \in m : p[1] = key)[2] ELSE -1
TabStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        Fin(kk, ok) ==
            <<kk, CASE ~ok -> "answer"
                    [] {<<p[1], p[2]>> : p \in ToSet(e.t)} # kk[e.a] -> "contents"
                    [] Len(e.t) # Cardinality(kk[e.a]) -> "element seen twice"
                    [] e.u # <<Cardinality(kk[e.a]), Bool(kk[e.a] = {})>> -> "size"
                    [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], TRUE)
        added == IF e.x \in Keys(a) THEN a ELSE a \cup {<<e.x, e.y>>}
    IN CASE e.o \in {"new", "clr", "ini"} -> Set({})
         [] e.o \in {"copy", "asg"} -> Set(b)
         [] e.o = "mov" -> Fin([k EXCEPT ![e.a] = b, ![e.b] = {}], TRUE)
         [] e.o = "add" -> Fin([k EXCEPT ![e.a] = added], e.r = At(added, e.x))
         [] e.o = "addn" ->          \* keys y, y+q, y+2q, ...: the first value given to a key stays
              LET old == Keys(a)
                  new == {p \in {<<e.y + i * e.q[1], i % 97>> : i \in 0..(e.x - 1)} : p[1] \notin old}
                  kept == {p \in a : (p[1] - e.y) % e.q[1] = 0 /\ p[1] >= e.y /\ (p[1] - e.y) \div e.q[1] < e.x
                                       /\ p[2] = ((p[1] - e.y) \div e.q[1]) % 97}
              IN Fin([k EXCEPT ![e.a] = a \cup new], e.r = Cardinality(new) + Cardinality(kept))
         [] e.o = "getn" -> Fin(k, e.r = Cardinality({p \in a : p[1] >= e.y /\ p[1] < e.y + e.x}))
         [] e.o = "put" -> Fin([k EXCEPT ![e.a] = {p \in a : p[1] # e.x} \cup {<<e.x, e.y>>}], e.r = e.y)
         [] e.o = "get" -> Fin(k, e.r = At(a, e.x))
         [] e.o \in {"reh", "see"} -> Fin(k, TRUE)

ListStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        Fin(kk, ok) ==
            <<kk, CASE ~ok -> "answer"
                    [] e.t # kk[e.a] -> "contents"
                    [] SubSeq(e.u, 1, 2) # <<Len(kk[e.a]), Bool(kk[e.a] = <<>>)>> -> "size"
                    [] kk[e.a] # <<>> /\ SubSeq(e.u, 3, 4) # <<kk[e.a][1][1], kk[e.a][1][1]>> -> "front"
                    [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], ~e.exc)
    IN CASE e.o = "all" -> Fin([k EXCEPT ![e.a] = <<e.q>> \o a], e.r = 1 /\ ~e.exc)
         [] e.o = "alln" -> Fin([k EXCEPT ![e.a] = [i \in 1..e.x |-> <<1 + ((e.x - i) % 100)>>] \o a], e.r = e.x /\ ~e.exc)
         [] e.o = "popn" -> Set(SubSeq(a, e.x + 1, Len(a)))
         [] e.o = "pop" -> Set(Tail(a))
         [] e.o = "clr" -> Set(<<>>)
         [] e.o \in {"asg", "copy"} -> IF b = <<>> THEN Set(<<>>) ELSE Fin(k, e.exc)
         [] e.o = "see" -> Fin(k, TRUE)

(* the bank of pools holds the sets of live region numbers; the number of  *)
(* allocations so far is kept in its last place                            *)
PoolStep(c, k, e) ==
    LET n == k[Len(k)]
        Fin(kk, ok) ==
            LET t == e.t
                live == UNION {kk[i] : i \in 1..(Len(kk) - 1)}
            IN <<kk, CASE ~ok -> "answer"
                       [] {r[1] : r \in ToSet(t)} # live \/ Len(t) # Cardinality(live) -> "harness"
                       [] \E i \in 1..Len(t) : t[i][4] # 1 -> "memory overwritten"
                       [] \E i \in 1..Len(t) : \E j \in 1..(i - 1) : t[i][2] < t[j][3] /\ t[j][2] < t[i][3] -> "regions overlap"
                       [] e.u[1] = 1 /\ kk[e.a] # {} -> "empty"
                       [] OTHER -> "">>
    IN CASE e.o = "all" -> Fin([k EXCEPT ![e.a] = @ \cup {n + 1}, ![Len(k)] = n + 1], e.r = 0 /\ e.u[1] = 0)
         [] e.o = "reu" -> Fin([k EXCEPT ![e.a] = {}], TRUE)
         [] e.o = "clr" -> Fin([k EXCEPT ![e.a] = {}], e.u[1] = 1)
         [] e.o = "spl" -> Fin([k EXCEPT ![e.a] = @ \cup k[e.b], ![e.b] = {}], e.u[2] = 1)
         [] e.o = "mov" -> Fin([k EXCEPT ![e.a] = k[e.b], ![e.b] = {}], e.u[2] = 1)
         [] e.o = "grow" -> Fin(SubSeq(k, 1, Len(k) - 1) \o [i \in 1..e.x |-> {}] \o <<n>>, TRUE)
         [] e.o \in {"rsv", "see"} -> Fin(k, TRUE)

Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
BitStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        words == IF c.v >= 64 THEN c.v \div 64 ELSE c.v
        Fin(kk, ok) ==
            <<kk, CASE ~ok -> "answer"
                    [] e.s # Sorted(kk[e.a]) -> "contents"
                    [] e.t # <<Sorted(kk[e.a])>> -> "text"
                    [] e.u # <<Bool(kk[e.a] = {}), words>> -> "size"
                    [] e.live # 0 -> "memory"
                    [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], TRUE)
    IN CASE e.o = "add" -> Set(a \cup {e.x})
         [] e.o = "rem" -> Set(a \ {e.x})
         [] e.o = "pull" -> Set({x \in a : x < e.x} \cup {x - 1 : x \in {z \in a : z > e.x}})
         [] e.o = "clr" -> Set({})
         [] e.o = "asg" -> Set(b)
         [] e.o = "has" -> Fin(k, e.r = Bool(e.x \in a))
         [] e.o = "meet" -> Fin(k, e.r = Bool(a \cap b # {}))
         [] e.o = "eq" -> Fin(k, e.r = Bool(a = b))
         [] e.o = "hash" -> Fin(k, a = b => e.r = 1)
         [] e.o = "see" -> Fin(k, TRUE)

SmallStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        q == ToSet(e.q)
        full == c.v < 100 /\ Cardinality(a) >= c.v - 1
        Fin(kk, ok) ==
            LET s == Sorted(kk[e.a])
            IN <<kk, CASE ~ok -> "answer"
                       [] e.s # s -> "contents"
                       [] e.t # <<s, Rev(s), s>> -> "views"
                       [] e.u # <<Bool(s = <<>>), Len(s)>> -> "size"
                       [] e.live # 0 -> "memory"
                       [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], ~e.exc)
    IN CASE e.o = "add" -> IF e.x \in a THEN Fin(k, ~e.exc \/ full)
                           ELSE IF full THEN Fin(k, e.exc)
                           ELSE Set(a \cup {e.x})
         [] e.o = "rem" -> Set(a \ {e.x})
         [] e.o = "clr" -> Set({})
         [] e.o = "asg" -> Set(b)
         [] e.o = "from" -> Set(q)
         [] e.o = "has" -> Fin(k, e.r = Bool(e.x \in a))
         [] e.o = "meet" -> Fin(k, e.r = Bool(a \cap b # {}))
         [] e.o = "meetq" -> Fin(k, e.r = Bool(a \cap q # {}))
         [] e.o \in {"equ", "eq"} -> Fin(k, e.r = Bool(a = b))
         [] e.o = "equq" -> Fin(k, e.r = Bool(a = q))
         [] e.o = "con" -> Fin(k, e.r = Bool(b \subseteq a))
         [] e.o = "conq" -> Fin(k, e.r = Bool(q \subseteq a))
         [] e.o = "hash" -> Fin(k, a = b => e.r = 1)
         [] e.o = "see" -> Fin(k, TRUE)

Flat(rows) == FoldLeft(LAMBDA acc, i : acc \o <<i - 1>> \o rows[i], <<>>, [i \in 1..Len(rows) |-> i])
Weight(rows) == SeqSum([i \in 1..Len(rows) |-> Len(rows[i])], Len(rows))
DTabStep(c, k, e) ==
    LET a == k[e.a]
        b == k[e.b]
        Fin(kk, ok) ==
            <<kk, CASE ~ok -> "answer"
                    [] e.t # kk[e.a] -> "contents"
                    [] e.s # Flat(kk[e.a]) -> "text"
                    [] e.u # <<Len(kk[e.a]), Weight(kk[e.a])>> -> "size"
                    [] e.live # SeqSum([i \in 1..Len(kk) |-> Weight(kk[i])], Len(kk)) -> "element lifetimes"
                    [] OTHER -> "">>
        Set(v) == Fin([k EXCEPT ![e.a] = v], TRUE)
        None(n) == [i \in 1..n |-> <<>>]
    IN CASE e.o \in {"new", "init"} -> Set(None(e.x))
         [] e.o \in {"copy", "asg"} -> Set(b)
         [] e.o = "rows" -> Set(IF e.x <= Len(a) THEN SubSeq(a, 1, e.x) ELSE a \o None(e.x - Len(a)))
         [] e.o = "row" -> Set([a EXCEPT ![e.x + 1] = Zeros(e.y)])
         [] e.o = "col" -> Fin([k EXCEPT ![e.a] = [a EXCEPT ![e.x + 1] = Append(@, 0)]], e.r = Len(a[e.x + 1]))
         [] e.o = "set" -> Set([a EXCEPT ![e.x + 1][e.q[1] + 1] = e.y])
         [] e.o = "see" -> Fin(k, TRUE)

RangeStep(c, k, e) ==
    LET lo == IF Len(e.q) >= 1 THEN e.q[1] ELSE 0
        hi == IF Len(e.q) >= 2 THEN e.q[2] ELSE 2147483647
        st == IF Len(e.q) >= 3 THEN e.q[3] ELSE 1
    IN <<k, IF e.r # Bool(e.x >= lo /\ e.x <= hi /\ (e.x - lo) % st = 0) THEN "contains"
            ELSE IF e.u # <<lo, hi>> THEN "bounds" ELSE "">>

-----------------------------------------------------------------------------
Bank(c) == CASE c.kind \in {"vec", "list", "plist", "dtab", "range"} -> [i \in 1..c.n |-> <<>>]
             [] c.kind \in {"tab", "map", "bit", "small"} -> [i \in 1..c.n |-> {}]
             [] c.kind = "pool" -> [i \in 1..c.n |-> {}] \o <<0>>

Step(c, k, e) ==
    CASE c.kind = "vec" -> VecStep(c, k, e)
      [] c.kind \in {"tab", "map"} -> TabStep(c, k, e)
      [] c.kind \in {"list", "plist"} -> ListStep(c, k, e)
      [] c.kind = "pool" -> PoolStep(c, k, e)
      [] c.kind = "bit" -> BitStep(c, k, e)
      [] c.kind = "small" -> SmallStep(c, k, e)
      [] c.kind = "dtab" -> DTabStep(c, k, e)
      [] c.kind = "range" -> RangeStep(c, k, e)

Run(c) ==
    LET F(s, e) == IF s.bad # "" THEN s
                   ELSE LET r == Step(c, s.k, e) IN [k |-> r[1], bad |-> r[2], n |-> s.n + 1]
        s1 == FoldLeft(F, [k |-> Bank(c), bad |-> "", n |-> 0], c.ev)
    IN IF s1.bad # "" THEN <<s1.n, s1.bad>>
       ELSE IF c.kind \in {"vec", "dtab"} /\ (c.left # 0 \/ c.faults # 0) THEN <<s1.n, "elements left alive or destroyed twice">>
       ELSE <<s1.n, "">>

Init == /\ cs \in 1..Len(Trace)
        /\ l = 0
        /\ bad = ""
Next == /\ l = 0
        /\ LET r == Run(Trace[cs]) IN l' = r[1] + 1 /\ bad' = r[2]
        /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
