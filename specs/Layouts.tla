------------------------------- MODULE Layouts -------------------------------
(* alloc_traits::{Layout, NonZeroLayout}: what requests for memory are made of. *)
(* A register machine: standard layouts, wrapped ones and non-empty ones are    *)
(* converted into one another and must stay the same pair of size and alignment.*)
EXTENDS Common
CONSTANTS MaxReg, Sizes, Aligns

VARIABLES reg, obs
vars == <<reg, obs>>
View == reg

InitC(c) == reg = <<>> /\ obs = Obs0
\* k: 1 core::alloc::Layout, 2 alloc_traits::Layout, 3 NonZeroLayout
L(k, s, a) == [k |-> k, s |-> s, a |-> a]
\* the largest size whose padded form is representable; logged as distance to isize::MAX
Valid(s, a) == s >= 0 \/ -s >= a
\* what is seen of every register: size and alignment
Seen(r) == FoldCat([i \in 1..Len(r) |-> <<r[i].k, r[i].s, r[i].a>>])
Res(r, rg, v) == reg' = rg /\ obs' = O7(r, v, <<>>, Seen(rg), <<>>, <<>>, 1)
B(x) == IF x THEN 1 ELSE 0
Fail(r) == Res(r, reg, <<>>)
Add(k, s, a) == Res("ok", Append(reg, L(k, s, a)), <<>>)

Apply(o) ==
  LET x == reg[o.x] IN
  CASE o.a = "std" -> Add(1, o.x, o.y)
    [] o.a = "new" -> Add(2, TySize[o.x], TyAlign[o.x])
    [] o.a = "nz" -> IF TyZst(o.x) THEN Fail("none") ELSE Add(3, TySize[o.x], TyAlign[o.x])
    \* Layout::from(std), alloc::Layout::from(Layout or NonZeroLayout), or NonZeroLayout
    \* through from_layout (y = 1), try_from (y = 2) or try_from of the standard one (y = 3)
    [] o.a = "wrap" -> Add(2, x.s, x.a)
    [] o.a = "std_of" -> Add(1, x.s, x.a)
    [] o.a = "nonzero" -> IF x.s = 0 THEN Fail(IF o.y = 1 THEN "none" ELSE "err") ELSE Add(3, x.s, x.a)
    [] o.a = "eq" -> LET y == reg[o.y] IN Res("ok", reg, <<B(x.s = y.s /\ x.a = y.a), B(~(x.s = y.s /\ x.a = y.a))>>)
    [] o.a = "end" -> Res("ok", reg, <<>>)

Regs(K) == {i \in 1..Len(reg) : reg[i].k \in K}
Grow == IF Len(reg) >= MaxReg THEN {} ELSE
  {Op("std", s, a, 0) : s \in Sizes, a \in Aligns} \cup {Op("new", t, 0, 0) : t \in 1..11} \cup {Op("nz", t, 0, 0) : t \in 1..11}
  \cup {Op("wrap", i, 0, 0) : i \in Regs({1})}
  \cup {Op("std_of", i, 0, 0) : i \in Regs({2, 3})}
  \cup {Op("nonzero", i, y, 0) : i \in Regs({2}), y \in 1..2} \cup {Op("nonzero", i, 3, 0) : i \in Regs({1})}
Ops == {o \in Grow : o.a = "std" => Valid(o.x, o.y)}
       \cup {Op("eq", p[1], p[2], 0) : p \in {q \in (1..Len(reg)) \X (1..Len(reg)) : reg[q[1]].k = reg[q[2]].k}}
Inv == \A i \in 1..Len(reg) : reg[i].k = 3 => reg[i].s # 0
Match(e, g) == e = g
=============================================================================
