------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Big numbers.  The state is a bank of natural numbers; storing, copying, *)
(* adding, dividing and shifting change exactly one of them, the rest are  *)
(* questions.  Naturals are written as little-endian digit sequences in    *)
(* base 4096 without leading zeros (<<>> is 0), because TLC has 32-bit     *)
(* integers.                                                               *)
(*                                                                         *)
(* width = 0: BigNumber, unbounded, 63 bits in each of the words it says   *)
(*   it occupies; "null" slots (no storage) read as 0 and take only 0.     *)
(* width = k: FixedBigNumber<k>, 32k bits, refusing sums beyond them.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cs, l, bad
vars == <<cs, l, bad>>

B == 4096

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Trim(SubSeq(s, 1, Len(s) - 1))
D(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Bigger(a, b) == IF a > b THEN a ELSE b

(* carry propagation over digits that may exceed the base *)
Norm(raw) ==
    LET F(acc, x) == LET t == acc.c + x IN [c |-> t \div B, d |-> Append(acc.d, t % B)]
        r == FoldLeft(F, [c |-> 0, d |-> <<>>], raw \o <<0, 0, 0>>)
    IN Trim(r.d)

Plus(a, b) == Norm([i \in 1..Bigger(Len(a), Len(b)) |-> D(a, i) + D(b, i)])
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, j) == IF j > Len(b) THEN 0 ELSE (IF k - j + 1 >= 1 THEN D(a, k - j + 1) * b[j] ELSE 0) + Conv(a, b, k, j + 1)
(* b short: at most a few digits *)
Times(a, b) == Norm([k \in 1..(Len(a) + Len(b)) |-> Conv(a, b, k, 1)])

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>
Shl(a, k) == IF a = <<>> THEN a ELSE [i \in 1..(k \div 12) |-> 0] \o Times(a, <<Pow2[1 + (k % 12)]>>)

Less(a, b) == \/ Len(a) < Len(b)
              \/ /\ Len(a) = Len(b)
                 /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]

Decimal(ds) == LET F(acc, d) == Plus(Times(acc, <<10>>), Trim(<<d>>)) IN FoldLeft(F, <<>>, ds)
RECURSIVE BitsOf(_)
BitsOf(x) == IF x = 0 THEN 0 ELSE 1 + BitsOf(x \div 2)
Bits(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
Words(a) == Bigger(1, (Bits(a) + 62) \div 63)

(* operations: <<new value, what is wrong with the observation>> *)
Obs(e) == Trim(e.v)
Wrong(e, c, v) ==
    CASE e.exc -> "refused"
      [] Obs(e) # v -> "value"
      [] c.width = 0 /\ e.w # Words(v) -> "size"
      [] c.width = 0 /\ e.g # 0 -> "memory"
      [] OTHER -> ""

Too(c, v) == c.width > 0 /\ Bits(v) > 32 * c.width

Step(c, bank, e) ==
    LET a == bank[e.a]
        b == bank[e.b]
        n == Trim(e.n)
        null == c.null[e.a] = 1
        Keep(why) == <<bank, why>>
        Set(v) == <<[bank EXCEPT ![e.a] = v], Wrong(e, c, v)>>
        Ask(x) == Keep(IF e.exc THEN "refused" ELSE IF e.r = x THEN "" ELSE "answer")
    IN CASE null /\ e.op = "st" -> Keep(IF e.exc # (n # <<>>) THEN "null store" ELSE IF ~e.exc /\ e.w # 1 THEN "size" ELSE "")
         [] null /\ e.op = "cp" -> Keep(IF e.exc # (b # <<>>) THEN "null store" ELSE IF ~e.exc /\ e.w # 1 THEN "size" ELSE "")
         [] e.op = "st" -> Set(n)
         [] e.op = "cp" -> Set(b)
         [] e.op = "add" -> LET v == Plus(a, b) IN
                IF Too(c, v) THEN <<[bank EXCEPT ![e.a] = Obs(e)], IF e.exc THEN "" ELSE "overflow">> ELSE Set(v)
         [] e.op = "sum" -> LET v == Plus(a, b) IN    \* operator+, result only observed
                IF Too(c, v) THEN Keep(IF e.exc THEN "" ELSE "overflow")
                ELSE Keep(IF e.exc THEN "refused" ELSE IF Obs(e) = v THEN "" ELSE "value")
         [] e.op = "div" -> LET q == Obs(e) r == Trim(e.rem) IN
                IF null THEN Keep(IF r = <<>> /\ ~e.exc THEN "" ELSE "null divide")
                ELSE IF ~Less(r, n) \/ Plus(Times(q, n), r) # a THEN Keep("division")
                ELSE <<[bank EXCEPT ![e.a] = q], IF e.exc THEN "refused" ELSE IF c.width = 0 /\ e.g # 0 THEN "memory" ELSE "">>
         [] e.op = "shl" -> Set(Shl(a, e.k))
         [] e.op = "eq" -> Ask(a = b)
         [] e.op = "ne" -> Ask(a # b)
         [] e.op = "eqn" -> Ask(a = n)
         [] e.op = "nen" -> Ask(a # n)
         [] e.op = "size" -> Keep(IF e.w = Words(a) THEN "" ELSE "size")
         [] e.op = "get" -> Keep(IF Obs(e) = a THEN "" ELSE "value")
         [] e.op = "str" -> Keep(IF Len(e.dec) >= 1 /\ (Len(e.dec) = 1 \/ e.dec[1] # 0) /\ Decimal(e.dec) = a THEN "" ELSE "text")

Run(c) ==
    LET F(s, e) == IF s.bad # "" THEN s
                   ELSE LET r == Step(c, s.bank, e) IN [bank |-> r[1], bad |-> r[2], n |-> s.n + 1]
        s1 == FoldLeft(F, [bank |-> [i \in 1..Len(c.null) |-> <<>>], bad |-> "", n |-> 0], c.ev)
    IN <<s1.n, s1.bad>>

Init == /\ cs \in 1..Len(Trace)
        /\ l = 0
        /\ bad = ""
Next == /\ l = 0
        /\ LET r == Run(Trace[cs]) IN l' = r[1] + 1 /\ bad' = r[2]
        /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
