------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* Progress messages.  Handlers share one output; text is a sequence of    *)
(* character codes.  Times are quarters of seconds, memory is KB.          *)
(*                                                                         *)
(* State: on    messages enabled                                           *)
(*        lvl   number of open tasks                                       *)
(*        col   characters on the current line                             *)
(*        et, ut, rss   the clock, the user time, the memory in use        *)
(*        U, T  resource usages and stopwatches by number                  *)
(*        line  line number                                                *)
(*        last  the handler that wrote last                                *)
(*        H     handler |-> [name, ind, begun, total, sc, dc, dt, slow,    *)
(*                          u0, u1]  (usage at the beginning, at the last  *)
(*                          percentage)                                    *)
(*                                                                         *)
(* Progress is shown as ten dots spread over the steps; when no dot came   *)
(* for more than four seconds, as one dash a step, fifty a line, each line *)
(* followed by the percentage done.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l, bad, M
vars == <<cs, l, bad, M>>
Ev == Trace[cs].ev
Init == /\ cs \in 1..Len(Trace) /\ l = 0 /\ bad = ""
        /\ M = [on |-> FALSE, lvl |-> 0, col |-> 0, et |-> 4000, ut |-> 0, rss |-> 1024, U |-> <<>>, T |-> <<>>, line |-> 0, last |-> 0, H |-> <<>>, out |-> <<>>]

NL == 10
SP == 32
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Spaces(n) == [k \in 1..n |-> SP]
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Capital(s) == IF s = <<>> THEN s ELSE <<Upper(s[1])>> \o Tail(s)
S(str) == CASE str = "done" -> <<32, 100, 111, 110, 101>>               \* " done"
            [] str = "in" -> <<32, 105, 110, 32>>                      \* " in "
            [] str = "Done" -> <<10, 68, 111, 110, 101, 32>>           \* "\nDone "
            [] str = "aborted" -> <<97, 98, 111, 114, 116, 101, 100>>
            [] str = "level" -> <<108, 101, 118, 101, 108, 45>>        \* "level-"
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Quarter(q) == LET f(x) == Dec(x \div 4) \o (CASE x % 4 = 0 -> <<46, 48, 48>> [] x % 4 = 1 -> <<46, 50, 53>> [] x % 4 = 2 -> <<46, 53, 48>> [] OTHER -> <<46, 55, 53>>)
              IN (IF q < 0 THEN <<45>> \o f(-q) ELSE f(q)) \o <<115>>                   \* "1.25s"
Mb(kb) == Dec((kb + 512) \div 1024) \o <<77, 66>>
ELAPSED == <<32, 101, 108, 97, 112, 115, 101, 100, 44, 32>>       \* " elapsed, "
USER == <<32, 117, 115, 101, 114, 44, 32>>                        \* " user, "
UsageText(u) == Quarter(u.e) \o ELAPSED \o Quarter(u.u) \o USER \o Mb(u.r)
Now(m) == [e |-> m.et, u |-> m.ut, s |-> 2 * m.ut + 1, r |-> m.rss]     \* s: system time
Max2(a, b) == IF a > b THEN a ELSE b
Diff(a, b) == [e |-> a.e - b.e, u |-> a.u - b.u, s |-> a.s - b.s, r |-> Max2(a.r, b.r)]
Sum(a, b) == [e |-> a.e + b.e, u |-> a.u + b.u, s |-> a.s + b.s, r |-> Max2(a.r, b.r)]

(* one character by handler h: another writer's unfinished line is closed, *)
(* leading blanks are dropped, lines are indented                          *)
Put1(m, h, c) ==
    LET a == IF m.last = h THEN m
             ELSE IF m.col = 0 THEN [m EXCEPT !.last = h]
             ELSE [m EXCEPT !.last = h, !.col = 0, !.line = @ + 1, !.out = Append(@, NL)]
    IN IF a.col = 0 /\ Blank(c) THEN a
       ELSE LET b == IF a.col = 0 THEN [a EXCEPT !.out = @ \o Spaces(a.H[h].ind), !.col = a.H[h].ind] ELSE a
                d == [b EXCEPT !.out = Append(@, c)]
            IN IF c = NL THEN [d EXCEPT !.line = @ + 1, !.col = 0] ELSE [d EXCEPT !.col = @ + 1]
Put(m, h, s) == IF ~ m.on THEN m ELSE FoldLeft(LAMBDA a, c : Put1(a, h, c), m, s)

Steps(m, h, n) == IF m.on THEN [m EXCEPT !.H[h].total = n, !.H[h].sc = 0, !.H[h].dc = 0, !.H[h].dt = (m.et \div 4), !.H[h].slow = FALSE] ELSE m
End(m, h, msg, info) ==
    IF ~ m.on \/ m.H[h].name = <<>> THEN m
    ELSE LET nm == m.H[h].name
             low(x) == [x EXCEPT !.lvl = @ - 1, !.H[h].ind = 2 * (x.lvl - 1)]
             tail == S("in") \o UsageText(Diff(Now(m), m.H[h].u0)) \o <<46, NL>>
             r == IF m.H[h].begun = m.line
                  THEN low(Put(m, h, (IF info # <<>> THEN <<SP>> \o info ELSE IF msg = <<>> THEN S("done") ELSE <<SP>> \o msg) \o tail))
                  ELSE Put(low(m), h, (IF msg = <<>> THEN S("Done") \o nm ELSE <<NL>> \o Capital(msg))
                                      \o (IF info # <<>> THEN <<SP>> \o info ELSE <<>>) \o tail)
         IN [r EXCEPT !.H[h].name = <<>>]
Begin(m, h, s) ==
    IF ~ m.on THEN m
    ELSE LET a == End(m, h, S("aborted"), <<>>)
             nm == IF s = <<>> THEN S("level") \o Dec(a.lvl) ELSE s
             b == Put([a EXCEPT !.H[h].name = nm, !.H[h].ind = 2 * a.lvl], h, <<NL>> \o Capital(nm))
             c == [b EXCEPT !.lvl = @ + 1, !.H[h].ind = 2 * (b.lvl + 1), !.H[h].begun = b.line, !.H[h].u0 = Now(m), !.H[h].u1 = Now(m)]
         IN Steps(c, h, 10)
(* ten dots in all, spread evenly over the steps *)
RECURSIVE Dots(_, _)
Dots(m, h) ==
    LET x == m.H[h] IN
    IF x.dc * x.total >= x.sc * 10 THEN m
    ELSE Dots([Put(m, h, IF x.dc = 0 THEN <<SP, 46>> ELSE <<46>>) EXCEPT !.H[h].dc = @ + 1, !.H[h].dt = (m.et \div 4)], h)
Slow(m, h, c) ==
    LET x == m.H[h]
        a == IF x.sc % 50 # m.col - x.ind THEN Put(m, h, <<NL>> \o [k \in 1..(x.sc % 50) |-> 45]) ELSE m
        b == [Put(a, h, <<c>>) EXCEPT !.H[h].sc = @ + 1]
        p == Dec(((x.sc + 1) * 100) \div x.total)
    IN IF b.col - x.ind < 50 THEN b
       ELSE [Put(b, h, Spaces(IF Len(p) < 3 THEN 3 - Len(p) ELSE 0) \o p \o <<37, 32, 40>>
                       \o Quarter(m.et - x.u1.e) \o <<44, 32>> \o Mb(Max2(m.rss, x.u1.r)) \o <<41, NL>>)
             EXCEPT !.H[h].u1 = Now(m)]
Step1(m, h, c) ==
    IF ~ m.on THEN m
    ELSE LET a == IF ~ m.H[h].slow /\ m.H[h].dt + 4 < (m.et \div 4) THEN [Put(m, h, <<NL>>) EXCEPT !.H[h].slow = TRUE] ELSE m
         IN IF a.H[h].slow THEN Slow(a, h, c) ELSE Dots([a EXCEPT !.H[h].sc = @ + 1], h)

Watch(m, k) == IF k \in DOMAIN m.T THEN m.T[k] ELSE [tot |-> 0, st |-> 0]
RECURSIVE Hex(_)
Hex(n) == LET d(x) == IF x < 10 THEN 48 + x ELSE 87 + x IN IF n < 16 THEN <<d(n)>> ELSE Hex(n \div 16) \o <<d(n % 16)>>
After(m, e) ==
    CASE e.op = "show" -> [m EXCEPT !.on = (e.h # 0)]
      [] e.op = "new" -> [m EXCEPT !.H = (e.h :> [name |-> <<>>, ind |-> 2 * m.lvl, begun |-> 0, total |-> 0, sc |-> 0, dc |-> 0, dt |-> 0, slow |-> FALSE, u0 |-> Now(m), u1 |-> Now(m)]) @@ @]
      [] e.op = "begin" -> Begin(m, e.h, e.s)
      [] e.op = "write" -> Put(m, e.h, e.s)
      [] e.op = "steps" -> Steps(m, e.h, e.n)
      [] e.op = "step" -> Step1(m, e.h, IF e.s = <<>> THEN 45 ELSE e.s[1])
      [] e.op = "clock" -> [m EXCEPT !.et = @ + 4 * e.h]
      [] e.op = "use" -> [m EXCEPT !.et = @ + e.h, !.ut = @ + e.n, !.rss = e.k]
      [] e.op = "uget" -> [m EXCEPT !.U = (e.h :> Now(m)) @@ @]
      [] e.op = "uadd" -> [m EXCEPT !.U[e.h] = Sum(@, m.U[e.n])]
      [] e.op = "usub" -> [m EXCEPT !.U[e.h] = Diff(@, m.U[e.n])]
      [] e.op = "usum" -> [m EXCEPT !.U = (e.h :> Sum(m.U[e.n], m.U[e.k])) @@ @]
      [] e.op = "udif" -> [m EXCEPT !.U = (e.h :> Diff(m.U[e.n], m.U[e.k])) @@ @]
      [] e.op = "uout" -> LET u == m.U[e.h] IN
            [m EXCEPT !.out = UsageText(u) \o <<SP, 102, 102, SP>> \o Quarter(u.e) \o <<SP>> \o Quarter(u.u) \o <<SP>> \o Mb(u.r) \o <<SP>> \o (IF u.s < 0 THEN <<45>> \o Dec(-u.s) ELSE Dec(u.s))]
      [] e.op = "tstart" -> [m EXCEPT !.T = (e.h :> [Watch(m, e.h) EXCEPT !.st = m.et]) @@ @]
      [] e.op = "tstop" -> [m EXCEPT !.T = (e.h :> [Watch(m, e.h) EXCEPT !.tot = @ + m.et - Watch(m, e.h).st]) @@ @]
      [] e.op = "treset" -> [m EXCEPT !.T = (e.h :> [Watch(m, e.h) EXCEPT !.tot = 0]) @@ @]
      [] e.op = "tout" -> [m EXCEPT !.out = Quarter(Watch(m, e.h).tot) \o <<SP, 102, 102, SP>> \o Hex(Watch(m, e.h).tot)]
      [] e.op = "end" -> End(m, e.h, e.s, <<>>)
      [] e.op = "endi" -> End(m, e.h, e.s, e.i)
      [] e.op = "endn" -> End(m, e.h, <<>>, <<60>> \o e.s \o <<62>>)
      [] e.op = "del" -> End(m, e.h, S("aborted"), <<>>)

Next ==
    /\ bad = "" /\ l < Len(Ev) /\ l' = l + 1 /\ cs' = cs
    /\ LET e == Ev[l + 1]
           r == After([M EXCEPT !.out = <<>>], e)
       IN /\ M' = r
          /\ bad' = IF e.out # r.out THEN "text"
                    ELSE IF e.op = "show" /\ e.ret # (IF M.on THEN 1 ELSE 0) THEN "previous-setting"
                    ELSE ""
Accepted == bad = ""
(* as many tasks are open as handlers have a name *)
Open == M.lvl = Cardinality({ h \in DOMAIN M.H : M.H[h].name # <<>> })
=============================================================================
