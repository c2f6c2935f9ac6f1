------------------------------- MODULE Common -------------------------------
(* Shared vocabulary of all component specifications.                        *)
(*                                                                           *)
(* An operation is a record [a, x, y, z]: a name and three integers.         *)
(* An observation is a record                                                *)
(*   r  how the call ended ("ok", "none", "panic", ...)                      *)
(*   v  integers returned or measured                                        *)
(*   d  ids of values whose destructor ran during the call, in order         *)
(*   c  ids of the values visible through the handle after the call          *)
(*   n  ids created and handed to the library by the call                    *)
(*   m  ids handed back to the caller by the call                            *)
(*   k  1 if c shows everything the library still owns                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Op(a, x, y, z) == [a |-> a, x |-> x, y |-> y, z |-> z]
O7(r, v, d, c, n, m, k) == [r |-> r, v |-> v, d |-> d, c |-> c, n |-> n, m |-> m, k |-> k]
Obs0 == O7("ok", <<>>, <<>>, <<>>, <<>>, <<>>, 1)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* Sequences *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Skip(s, n) == SubSeq(s, n + 1, Len(s))
Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Range1(s) == {s[i] : i \in 1..Len(s)}
Inj(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Occ(s, e) == Cardinality({i \in 1..Len(s) : s[i] = e})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Occ(s, s[i]) = Occ(t, s[i])
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE FoldCat(_)
FoldCat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FoldCat(Tail(ss))
Const(n, e) == [i \in 1..n |-> e]
IdRange(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

(* Address arithmetic, all in bytes *)
PadTo(addr, al) == (al - (addr % al)) % al

(* The value types the drivers use: index -> size and alignment.             *)
TySize  == << 1, 4, 8, 24,  0,  0, 32, 2, 64, 3, 16, 48, 320, 1024 >>
TyAlign == << 1, 4, 8,  8,  1, 16, 16, 2, 64, 1, 8, 8, 8, 1024 >>
TyZst(t) == TySize[t] = 0
(* the largest value TLC handles stands for usize::MAX, logged as -1 *)
Inf == 1000000000
Enc(n) == IF n >= Inf THEN -1 ELSE n
=============================================================================
