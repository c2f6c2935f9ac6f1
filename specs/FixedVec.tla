------------------------------ MODULE FixedVec ------------------------------
(* without_alloc::FixedVec: a sequence of bounded capacity over borrowed      *)
(* memory, with draining, borrowed splits and permanent splits.               *)
(*                                                                            *)
(* fr  is the stack of live borrows: fr[1] is the vector itself, on top of it *)
(*     a borrowed tail (split_borrowed) and/or a running Drain.               *)
(* oth is the vector split off by split_and_shrink_to, if any.                *)
EXTENDS Common

CONSTANTS MaxId,      \* bound on the number of values created (exploration)
          Panics,     \* whether to explore panicking destructors
          Bulk        \* numbers of items that large sources have

VARIABLES fr, oth, nx, zst, obs
vars == <<fr, oth, nx, zst, obs>>
View == <<fr, oth, nx, zst>>

Vec(cap, el) == [k |-> "vec", cap |-> cap, el |-> el, tl |-> <<>>, st |-> 0]
\* a drain: el is what is left to be drained, tl the elements behind the range
Drn(el, tl) == [k |-> "drain", cap |-> 0, el |-> el, tl |-> tl, st |-> 0]

\* cfg = <<type, ctor, n, off>>
Capacity(c) ==
  LET s == TySize[c[1]]  a == TyAlign[c[1]] IN
  IF s = 0 THEN Inf
  ELSE CASE c[2] = 0 -> c[3]                       \* a slice of n elements
         [] c[2] = 1 -> LET p == PadTo(c[4], a) IN \* n bytes at offset off
                        IF p > c[3] THEN 0 ELSE (c[3] - p) \div s
InitC(c) == /\ fr = <<Vec(Capacity(c), <<>>)>>
            /\ oth = <<>>
            /\ nx = 1
            /\ zst = (TySize[c[1]] = 0)
            /\ obs = Obs0

Top == fr[Len(fr)]
SetTop(f) == [fr EXCEPT ![Len(fr)] = f]
Id(i) == IF zst THEN 0 ELSE i
Ids(n) == [i \in 1..n |-> Id(nx + i - 1)]
K(f, o) == IF Len(f) = 1 /\ o = <<>> THEN 1 ELSE 0
\* the observation after the call; value first, then len and capacity
Ob(r, v, d, n, m, f, o) ==
  LET t == f[Len(f)] IN
  O7(r, v \o IF t.k = "vec" THEN <<Len(t.el), Enc(t.cap)>> ELSE <<Len(t.el), -2>>,
     d, t.el, n, m, K(f, o))

(* every operation that changes the top vector to contents e *)
Mod(r, v, e, d, n, m) ==
  LET f == SetTop([Top EXCEPT !.el = e]) IN
  /\ fr' = f /\ oth' = oth /\ zst' = zst /\ nx' = nx + Len(n)
  /\ obs' = Ob(r, v, d, n, m, f, oth)

IsVec == Top.k = "vec"

Push == LET t == Top IN
  IF Len(t.el) < t.cap
  THEN Mod("ok", <<>>, Append(t.el, Id(nx)), <<>>, Ids(1), <<>>)
  ELSE Mod("full", <<>>, t.el, <<>>, Ids(1), Ids(1))
Pop == LET t == Top IN
  IF t.el = <<>> THEN Mod("none", <<>>, t.el, <<>>, <<>>, <<>>)
  ELSE Mod("ok", <<>>, Front1(t.el), <<>>, <<>>, <<Last1(t.el)>>)
\* p: the p-th destructor panics (0: none).
Truncate(x, p) == LET t == Top  rm == Rev(Skip(t.el, x)) IN
  IF p \in 1..Len(rm)
  THEN Mod("panic", <<>>, Take(t.el, Len(t.el) - p), Take(rm, p), <<>>, <<>>)
  ELSE Mod("ok", <<>>, Take(t.el, x), rm, <<>>, <<>>)
Set(i) == LET t == Top IN
  IF i < Len(t.el)
  THEN Mod("ok", <<>>, [t.el EXCEPT ![i + 1] = Id(nx)], <<t.el[i + 1]>>, Ids(1), <<>>)
  ELSE Mod("panic", <<>>, t.el, Ids(1), Ids(1), <<>>)
\* fill from a source of x items, v: how many were pulled from it; the source panics instead of
\* making its y-th item (0: never); z is what its size hint says, which must not matter
Fill(x, y) == LET t == Top  k == Min(x, t.cap - Len(t.el)) IN
  IF y \in 1..k
  THEN Mod("panic", <<y - 1>>, t.el \o Ids(y - 1), <<>>, Ids(y - 1), <<>>)
  ELSE Mod("ok", <<k>>, t.el \o Ids(k), <<>>, Ids(k), <<>>)
\* extend panics if the source has too many items, after having stored what fits
Extend(x, y) == LET t == Top  k == Min(x, t.cap - Len(t.el)) IN
  IF y \in 1..Min(k + 1, x)
  THEN Mod("panic", <<y - 1>>, t.el \o Ids(y - 1), <<>>, Ids(y - 1), <<>>)
  ELSE IF x <= k THEN Mod("ok", <<k>>, t.el \o Ids(k), <<>>, Ids(k), <<>>)
  ELSE Mod("panic", <<k + 1>>, t.el \o Ids(k), <<Id(nx + k)>>, Ids(k + 1), <<>>)
\* ranges: form 0 s..e, 1 s..=e-1, 2 (s-1, e-1], 3 ..e, 4 s.., 5 .., 6 (usize::MAX, .., 7 ..=usize::MAX
DrainBegin(s, e, form) == LET t == Top IN
  IF s > e \/ e > Len(t.el) \/ form >= 6 THEN Mod("panic", <<>>, t.el, <<>>, <<>>, <<>>)
  ELSE LET f == Append(SetTop([t EXCEPT !.el = Take(t.el, s)]),
                       Drn(SubSeq(t.el, s + 1, e), Skip(t.el, e))) IN
       /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
       /\ obs' = Ob("ok", <<>>, <<>>, <<>>, <<>>, f, oth)
DNext == IF Top.el = <<>> THEN Mod("none", <<>>, <<>>, <<>>, <<>>, <<>>)
         ELSE Mod("ok", <<>>, Tail(Top.el), <<>>, <<>>, <<Head(Top.el)>>)
DBack == IF Top.el = <<>> THEN Mod("none", <<>>, <<>>, <<>>, <<>>, <<>>)
         ELSE Mod("ok", <<>>, Front1(Top.el), <<>>, <<>>, <<Last1(Top.el)>>)
\* nth(i) of the iterator: skips (drops) i elements
DNth(i, p) == LET el == Top.el IN
  IF p \in 1..Min(i, Len(el)) THEN Mod("panic", <<>>, Skip(el, p), Take(el, p), <<>>, <<>>)
  ELSE IF i < Len(el) THEN Mod("ok", <<>>, Skip(el, i + 1), Take(el, i), <<>>, <<el[i + 1]>>)
  ELSE Mod("none", <<>>, <<>>, el, <<>>, <<>>)
DNthBack(i) == LET el == Top.el  n == Len(el) IN
  IF i < n THEN Mod("ok", <<>>, Take(el, n - i - 1), Rev(Skip(el, n - i)), <<>>, <<el[n - i]>>)
  ELSE Mod("none", <<>>, <<>>, Rev(el), <<>>, <<>>)
\* consumes the drain as an iterator: 0 collect, 1 collect in reverse, 2 count, 3 last,
\* 4 a function is called for each, which panics for the p-th, 5 by two ends in turn
RECURSIVE Zip2(_)
Zip2(s) == IF Len(s) < 2 THEN s ELSE <<Head(s), Last1(s)>> \o Zip2(Front1(Tail(s)))
DCons(k, p) == LET dn == Top  par == fr[Len(fr) - 1]  el == dn.el  n == Len(el)
                   pan == k = 4 /\ p \in 1..n
                   f == Append(SubSeq(fr, 1, Len(fr) - 2), [par EXCEPT !.el = @ \o dn.tl]) IN
  /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
  /\ obs' = Ob(IF pan THEN "panic" ELSE "ok", IF k = 2 THEN <<n>> ELSE <<>>,
               CASE k = 2 -> el [] k = 3 /\ n > 0 -> Front1(el) [] pan -> Skip(el, p - 1) [] OTHER -> <<>>, <<>>,
               CASE k = 0 -> el [] k = 1 -> Rev(el) [] k = 2 -> <<>>
                 [] k = 3 -> IF n = 0 THEN <<>> ELSE <<el[n]>>
                 [] k = 4 -> IF pan THEN Take(el, p - 1) ELSE el
                 [] k = 5 -> Zip2(el), f, oth)
DEnd(p) == LET dn == Top  par == fr[Len(fr) - 1]
               pan == p \in 1..Len(dn.el)
               f == Append(SubSeq(fr, 1, Len(fr) - 2),
                           [par EXCEPT !.el = IF pan THEN @ ELSE @ \o dn.tl]) IN
  /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
  /\ obs' = Ob(IF pan THEN "panic" ELSE "ok", <<>>, IF pan THEN Take(dn.el, p) ELSE dn.el,
               <<>>, <<>>, f, oth)
DForget == LET f == Front1(fr) IN
  /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
  /\ obs' = Ob("ok", <<>>, <<>>, <<>>, <<>>, f, oth)
SplitB(at) == LET t == Top IN
  IF at > t.cap THEN Mod("panic", <<>>, t.el, <<>>, <<>>, <<>>)
  ELSE LET f == Append(SetTop([t EXCEPT !.el = Take(t.el, at)]),
                       Vec(IF zst THEN Inf ELSE t.cap - at, Skip(t.el, at))) IN
       /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
       /\ obs' = Ob("ok", <<>>, <<>>, <<>>, <<>>, f, oth)
SplitEnd(p) == LET f == Front1(fr)  el == Top.el IN
  /\ fr' = f /\ UNCHANGED <<oth, zst, nx>>
  /\ obs' = Ob(IF p \in 1..Len(el) THEN "panic" ELSE "ok", <<>>, el, <<>>, <<>>, f, oth)
\* permanent split, only at the root
SplitS(at) == LET t == Top IN
  IF at > t.cap THEN Mod("panic", <<>>, t.el, <<>>, <<>>, <<>>)
  ELSE LET f == SetTop([t EXCEPT !.el = Take(t.el, at), !.cap = IF zst THEN Inf ELSE at])
           o == <<Vec(IF zst THEN Inf ELSE t.cap - at, Skip(t.el, at))>> IN
       /\ fr' = f /\ oth' = o /\ UNCHANGED <<zst, nx>>
       /\ obs' = Ob("ok", <<>>, <<>>, <<>>, <<>>, f, o)
SwapO == LET f == <<oth[1]>>  o == <<fr[1]>> IN
  /\ fr' = f /\ oth' = o /\ UNCHANGED <<zst, nx>>
  /\ obs' = Ob("ok", <<>>, <<>>, <<>>, <<>>, f, o)
DropO(p) == /\ fr' = fr /\ oth' = <<>> /\ UNCHANGED <<zst, nx>>
         /\ obs' = Ob(IF p \in 1..Len(oth[1].el) THEN "panic" ELSE "ok",
                      <<>>, oth[1].el, <<>>, <<>>, fr, <<>>)
\* through as_mut_slice, of a vector or a drain
Reverse == Mod("ok", <<>>, Rev(Top.el), <<>>, <<>>, <<>>)
\* set_len, and back again
SetLen(i) == Mod("ok", <<i>> \o Take(Top.el, i), Top.el, <<>>, <<>>, <<>>)
\* a vector that is as long as possible (of elements without size, set_len) takes no more
PushMax == Mod("full", <<>>, Top.el, <<>>, Ids(1), Ids(1))
\* hands out the bytes behind the last whole element; the rest stays
Shrink == Mod("ok", <<>>, Top.el, <<>>, <<>>, <<>>)
\* drops everything that is left, the borrows on top first
End == LET all == FoldCat([i \in 1..Len(fr) |-> fr[Len(fr) + 1 - i].el \o
                             fr[Len(fr) + 1 - i].tl]) IN
  /\ fr' = <<Vec(0, <<>>)>> /\ oth' = <<>> /\ UNCHANGED <<zst, nx>>
  /\ obs' = O7("ok", <<>>, all \o (IF oth = <<>> THEN <<>> ELSE oth[1].el), <<>>, <<>>, <<>>, 1)

Apply(o) ==
  CASE o.a = "push" -> Push
    [] o.a = "pop" -> Pop
    [] o.a = "trunc" -> Truncate(o.x, o.y)
    [] o.a = "clear" -> Truncate(0, o.y)
    [] o.a = "set" -> Set(o.x)
    [] o.a = "fill" -> Fill(o.x, o.y)
    [] o.a = "fillinf" -> Fill(o.x, o.y)
    [] o.a = "extend" -> Extend(o.x, o.y)
    [] o.a = "drain" -> DrainBegin(o.x, o.y, o.z)
    [] o.a = "dnext" -> DNext
    [] o.a = "dback" -> DBack
    [] o.a = "dnth" -> DNth(o.x, o.y)
    [] o.a = "dnthb" -> DNthBack(o.x)
    [] o.a = "dcons" -> DCons(o.x, o.y)
    [] o.a = "rev" -> Reverse
    [] o.a = "setlen" -> SetLen(o.x)
    [] o.a = "dend" -> DEnd(o.y)
    [] o.a = "dforget" -> DForget
    [] o.a = "splitb" -> SplitB(o.x)
    [] o.a = "splitend" -> SplitEnd(o.y)
    [] o.a = "splits" -> SplitS(o.x)
    [] o.a = "swapo" -> SwapO
    [] o.a = "dropo" -> DropO(o.y)
    [] o.a = "shrink" -> Shrink
    [] o.a = "pushmax" -> PushMax
    [] o.a = "end" -> End

\* ------------------------------------------------------------ exploration
Room == MaxId - (nx - 1)
PanicAt(n) == IF Panics THEN (IF n <= 8 THEN 0..n ELSE {0, 1, n \div 2, n}) ELSE {0}
\* size hints: 0 none, 1 exact, 2 and 3 wrong, 4 and 5 right but loose
Hints == IF Panics THEN 0..5 ELSE {0, 1, 4, 5}
InfFill == IF Top.cap >= Inf THEN {} ELSE {Top.cap - Len(Top.el)}
\* positions to try: all of them in a short vector
Near(n) == IF n <= 8 THEN 0..n ELSE {0, 1, 2, 3, n \div 2, n - 1, n} \cup ({255, 256, 257} \cap 0..n)
FarSplits(c) == IF c > 64 /\ c < Inf THEN ({c - 1, c, c \div 2, 256, 65536} \cap 0..c) ELSE {}
Ops ==
  LET t == Top  L == Len(Top.el) IN
  IF t.k = "drain" THEN
       {Op(a, 0, 0, 0) : a \in {"dnext", "dback", "dforget"}}
       \cup UNION {{Op("dnth", i, p, 0) : p \in PanicAt(Min(i, L))} : i \in Near(L + 1)}
       \cup {Op("dnthb", i, 0, 0) : i \in Near(L + 1)}
       \cup {Op("dcons", k, 0, 0) : k \in 0..5} \cup {Op("dcons", 4, p, 0) : p \in PanicAt(L)}
       \cup (IF L > 1 THEN {Op("rev", 0, 0, 0)} ELSE {})
       \cup {Op("dend", 0, p, 0) : p \in PanicAt(L)}
  ELSE {Op(a, 0, 0, 0) : a \in {"pop", "shrink"}} \cup (IF L > 1 THEN {Op("rev", 0, 0, 0)} ELSE {})
       \cup {Op("setlen", i, 0, 0) : i \in Near(L)}
       \cup (IF Room > 0 /\ zst THEN {Op("pushmax", 0, 0, 0)} ELSE {})
       \cup {Op("fill", i, 0, h) : i \in {i \in Bulk : i <= Room}, h \in Hints}
       \cup {Op("extend", i, 0, h) : i \in {i \in Bulk : i <= Room}, h \in {1, 4}}
       \cup (IF Room > 0 THEN {Op("push", 0, 0, 0)} \cup {Op("set", i, 0, 0) : i \in Near(L)} ELSE {})
       \cup UNION {{Op("trunc", i, p, 0) : p \in PanicAt(L - i)} : i \in Near(L)}
       \cup {Op("clear", 0, p, 0) : p \in PanicAt(L)} \cup {Op("trunc", L + 1, 0, 0)}
       \cup UNION {{Op("fill", i, p, h) : p \in PanicAt(i), h \in Hints} : i \in {i \in 0..3 : i <= Room}}
       \cup {Op("fillinf", Inf, 0, 0) : i \in {i \in InfFill : i <= Room}}
       \cup UNION {{Op("extend", i, p, h) : p \in PanicAt(i), h \in Hints} : i \in {i \in 1..4 : i <= Room}}
       \cup UNION {{Op("drain", se[1], se[2], g) : g \in
                      {0} \cup (IF se[2] > se[1] THEN {1} ELSE {})
                      \cup (IF se[1] > 0 /\ se[2] > se[1] THEN {2} ELSE {})
                      \cup (IF se[1] = 0 THEN {3} ELSE {}) \cup (IF se[2] = L THEN {4} ELSE {})
                      \cup (IF se[1] = 0 /\ se[2] = L THEN {5} ELSE {})}
                   : se \in {q \in Near(L) \X Near(L) : q[1] <= q[2]}}
       \cup {Op("drain", 0, L + 1, 0), Op("drain", 1, 0, 0), Op("drain", 0, 0, 6), Op("drain", 0, 0, 7)}
       \cup (IF Len(fr) < 2 THEN {Op("splitb", i, 0, 0) : i \in (Near(L + 1) \cap 0..t.cap) \cup FarSplits(t.cap)} ELSE {})
       \cup (IF Len(fr) < 2 /\ t.cap < Inf THEN {Op("splitb", t.cap + 1, 0, 0)} ELSE {})
       \cup (IF Len(fr) = 2 THEN {Op("splitend", 0, p, 0) : p \in PanicAt(L)} ELSE {})
       \cup (IF Len(fr) = 1 /\ oth = <<>> THEN {Op("splits", i, 0, 0) : i \in (Near(L + 1) \cap 0..t.cap) \cup FarSplits(t.cap)} ELSE {})
       \cup (IF Len(fr) = 1 /\ oth # <<>> THEN {Op("swapo", 0, 0, 0)}
                  \cup {Op("dropo", 0, p, 0) : p \in PanicAt(Len(oth[1].el))} ELSE {})

\* ------------------------------------------------------------- properties
AllVecs == Range1(fr) \cup Range1(oth)
TypeOK == /\ \A f \in AllVecs : f.k \in {"vec", "drain"}
          /\ \A i \in 1..(Len(fr) - 1) : fr[i].k = "vec"
Bounded == \A f \in AllVecs : f.k = "vec" => Len(f.el) <= f.cap
\* no value is in two places
Owned == FoldCat([i \in 1..Len(fr) |-> fr[i].el \o fr[i].tl])
         \o (IF oth = <<>> THEN <<>> ELSE oth[1].el)
Distinct == ~zst => Inj(Owned)
\* values only leave by destruction or by being handed out, except for forgotten drains
Conserve ==
  [][ \/ obs'.k = 0 \/ obs.k = 0 \/ obs'.r = "panic"
      \/ SameBag(Owned \o obs'.n, Owned' \o obs'.d \o obs'.m) ]_vars
Inv == TypeOK /\ Bounded /\ Distinct

\* what a C11 history is judged on: results, contents, length and capacity
Match(e, g) == /\ e.r = g.r /\ e.c = g.c /\ e.m = g.m /\ e.v = g.v
=============================================================================
