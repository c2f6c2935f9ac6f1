------------------------------ MODULE Unsize ------------------------------
(* unsize: pointers of all kinds are turned into pointers to unsized types.   *)
(* kinds of pointers: 1 *const 2 *mut 3 & 4 &mut 5 Pin<&mut> 6 Pin<Box>       *)
(*   7 NonNull 8 Box 9 Rc 10 Arc 11 Weak of Rc 12 Weak of Arc                 *)
(* forms: 0 sized 1 dyn Any 2 dyn Debug 3 dyn Display 4 own trait 5 with Send  *)
(*   6 slice 7 Fn 8 FnMut 9 FnOnce 10 Iterator 11 Future 12 own coercion       *)
(* objects: 1 a value, 2 3 4 an array of 0 1 3, 5.. a closure of 0.. arguments *)
EXTENDS Common
CONSTANTS MaxHandles, MaxObjs, Kinds, Objs

VARIABLES h, ob, ty, nx, obs
vars == <<h, ob, ty, nx, obs>>
View == <<h, ob, ty, nx>>

\* cfg = <<type>>
InitC(c) == /\ h = <<>> /\ ob = <<>> /\ ty = c[1] /\ nx = 1 /\ obs = Obs0
Hd(k, f, o, t) == [k |-> k, f |-> f, o |-> o, t |-> t]
Gone == Hd(0, 0, 0, 0)
\* t: kind of object, s, w: strong and weak owners
Ob(t, ids, s, w) == [t |-> t, ids |-> ids, s |-> s, w |-> w]
Elems(t) == CASE t = 2 -> 0 [] t = 3 -> 1 [] t = 4 -> 3 [] OTHER -> 1
Ids(t) == [i \in 1..Elems(t) |-> IF TyZst(ty) THEN 0 ELSE nx + i - 1]

\* whether the contents can be seen through a handle
Seen(x, b) == x.k # 0 /\ x.o # 0 /\ x.k \notin {11, 12} /\ ~(x.f = 9)
\* one row for each handle: at its place, size, alignment, strong, weak, elements of a slice
Row(x, b) ==
  IF x.k = 0 THEN <<>>
  ELSE LET there == x.o # 0 /\ x.k \notin {11, 12}
           o == IF x.o = 0 THEN Ob(x.t, <<>>, 0, 0) ELSE b[x.o] IN
       <<1, IF there THEN Elems(x.t) * TySize[ty] ELSE -1, IF there THEN TyAlign[ty] ELSE -1,
         IF x.k \in 9..12 THEN o.s ELSE -1,
         IF x.k \in {9, 10} THEN o.w ELSE IF x.k \in {11, 12} THEN (IF o.s = 0 THEN 0 ELSE o.w) ELSE -1,
         IF x.f = 6 /\ there THEN Elems(x.t) ELSE -1>>
Rows(a, b) == FoldCat([i \in 1..Len(a) |-> Row(a[i], b)])
See(a, b) == FoldCat([i \in 1..Len(a) |-> IF Seen(a[i], b) THEN b[a[i].o].ids ELSE <<>>])
Res(r, a, b, d, n, m, k) == /\ h' = a /\ ob' = b /\ nx' = nx + k /\ UNCHANGED ty
                            /\ obs' = O7(r, Rows(a, b), d, See(a, b), n, m, 1)
Fail(r) == Res(r, h, ob, <<>>, <<>>, <<>>, 0)
Is(i) == i \in 1..Len(h) /\ h[i].k # 0
Set(i, x) == [h EXCEPT ![i] = x]

New(k, t) == Res("ok", Append(h, Hd(k, 0, Len(ob) + 1, t)), Append(ob, Ob(t, Ids(t), IF k \in {9, 10} THEN 1 ELSE 0, 0)), <<>>, Ids(t), <<>>, Elems(t))
\* null pointers, dangling pointers, and weak pointers that never had a value
Null(k, t) == Res("ok", Append(h, Hd(k, 0, 0, t)), ob, <<>>, <<>>, <<>>, 0)

Mutable == {2, 4, 5, 6, 7, 8}
Can(x, f) == /\ x.f = 0
             /\ CASE f \in {1, 2, 3, 4, 5, 12} -> x.t = 1
                  [] f \in {10, 11} -> x.t = 1 /\ x.k \in Mutable
                  [] f = 6 -> x.t \in {2, 3, 4}
                  [] f = 7 -> x.t >= 5
                  [] f = 8 -> x.t >= 5 /\ x.k \in Mutable
                  [] f = 9 -> x.t >= 5 /\ x.k = 8
Uns(i, f) == IF Is(i) /\ Can(h[i], f) THEN Res("ok", Set(i, [h[i] EXCEPT !.f = f]), ob, <<>>, <<>>, <<>>, 0) ELSE Fail("skip")
Clone(i) ==
  IF ~Is(i) \/ h[i].k \notin {1, 3, 9, 10, 11, 12} THEN Fail("skip")
  ELSE LET x == h[i] IN
       Res("ok", Append(h, x), IF x.o = 0 THEN ob ELSE IF x.k \in {9, 10} THEN [ob EXCEPT ![x.o].s = @ + 1]
                               ELSE IF x.k \in {11, 12} THEN [ob EXCEPT ![x.o].w = @ + 1] ELSE ob, <<>>, <<>>, <<>>, 0)
Down(i) == IF ~Is(i) \/ h[i].k \notin {9, 10} THEN Fail("skip")
           ELSE Res("ok", Append(h, [h[i] EXCEPT !.k = @ + 2]), [ob EXCEPT ![h[i].o].w = @ + 1], <<>>, <<>>, <<>>, 0)
Up(i) == IF ~Is(i) \/ h[i].k \notin {11, 12} THEN Fail("skip")
         ELSE IF h[i].o = 0 THEN Fail("none")
         ELSE IF ob[h[i].o].s = 0 THEN Fail("none")
         ELSE Res("ok", Append(h, [h[i] EXCEPT !.k = @ - 2]), [ob EXCEPT ![h[i].o].s = @ + 1], <<>>, <<>>, <<>>, 0)
Drop(i) ==
  IF ~Is(i) THEN Fail("skip")
  ELSE LET x == h[i] IN
       CASE x.k \in {6, 8} -> Res("ok", Set(i, Gone), [ob EXCEPT ![x.o].ids = <<>>], ob[x.o].ids, <<>>, <<>>, 0)
         [] x.k \in {9, 10} -> IF ob[x.o].s = 1
                               THEN Res("ok", Set(i, Gone), [ob EXCEPT ![x.o].s = 0, ![x.o].ids = <<>>], ob[x.o].ids, <<>>, <<>>, 0)
                               ELSE Res("ok", Set(i, Gone), [ob EXCEPT ![x.o].s = @ - 1], <<>>, <<>>, <<>>, 0)
         [] x.k \in {11, 12} /\ x.o # 0 -> Res("ok", Set(i, Gone), [ob EXCEPT ![x.o].w = @ - 1], <<>>, <<>>, <<>>, 0)
         [] OTHER -> Res("ok", Set(i, Gone), ob, <<>>, <<>>, <<>>, 0)
\* a boxed FnOnce is called: it hands out its value
Call(i) == IF ~Is(i) \/ h[i].f # 9 THEN Fail("skip")
           ELSE Res("ok", Set(i, Gone), [ob EXCEPT ![h[i].o].ids = <<>>], <<>>, <<>>, ob[h[i].o].ids, 0)
\* the handles are dropped one after another
Owned(i) == h[i].k \in {6, 8} \/ (h[i].k \in {9, 10} /\ \A j \in (i + 1)..Len(h) : ~(h[j].k = h[i].k /\ h[j].o = h[i].o))
End == Res("ok", [i \in 1..Len(h) |-> Gone], [o \in 1..Len(ob) |-> [ob[o] EXCEPT !.s = 0, !.w = 0]], FoldCat([i \in 1..Len(h) |-> IF h[i].k # 0 /\ Owned(i) THEN ob[h[i].o].ids ELSE <<>>]), <<>>, <<>>, 0)

\* two coercions are made of functions x and y: whether they are equal, the same for copies of them,
\* whether they differ, and whether equal ones are hashed alike
Co(x, y) == Res("ok", h, ob, <<>>, <<>>, LET e == IF x = y THEN 1 ELSE 0 IN <<e, e, 1 - e, 1>>, 0)

Apply(o) ==
  CASE o.a = "new" -> New(o.x, o.y) [] o.a = "null" -> Null(o.x, o.y) [] o.a = "uns" -> Uns(o.x, o.y)
    [] o.a = "clone" -> Clone(o.x) [] o.a = "down" -> Down(o.x) [] o.a = "up" -> Up(o.x)
    [] o.a = "drop" -> Drop(o.x) [] o.a = "call" -> Call(o.x) [] o.a = "end" -> End
    [] o.a = "co" -> Co(o.x, o.y)

Live == {i \in 1..Len(h) : h[i].k # 0}
More == Len(h) < MaxHandles
Ops == (IF More /\ Len(ob) < MaxObjs THEN {Op("new", k, t, 0) : k \in Kinds \cap 1..10, t \in Objs} ELSE {})
       \cup (IF More THEN {Op("null", k, t, 0) : k \in Kinds \cap {1, 2, 7, 11, 12}, t \in Objs} ELSE {})
       \cup UNION {{Op("uns", i, f, 0) : f \in {f \in 1..12 : Can(h[i], f)}} : i \in Live}
       \cup (IF More THEN {Op("clone", i, 0, 0) : i \in {i \in Live : h[i].k \in {1, 3, 9, 10, 11, 12}}}
                          \cup {Op("down", i, 0, 0) : i \in {i \in Live : h[i].k \in {9, 10}}}
                          \cup {Op("up", i, 0, 0) : i \in {i \in Live : h[i].k \in {11, 12}}} ELSE {})
       \cup {Op("drop", i, 0, 0) : i \in Live}
       \cup {Op("call", i, 0, 0) : i \in {i \in Live : h[i].f = 9}}
       \cup (IF Len(h) = 1 THEN {Op("co", x, y, 0) : x \in 1..2, y \in 1..2} ELSE {})

\* ------------------------------------------------------------- properties
Num(o, K) == Cardinality({i \in 1..Len(h) : h[i].k \in K /\ h[i].o = o})
Inv == \A o \in 1..Len(ob) :
         /\ ob[o].s = Num(o, {9, 10}) /\ ob[o].w = Num(o, {11, 12})
         /\ \A i \in 1..Len(h) : h[i].o = o /\ h[i].k \in {9, 10} => ob[o].s > 0
\* what is dropped was owned, once
Once == [][\A i, j \in 1..Len(obs'.d) : obs'.d[i] # 0 /\ obs'.d[i] = obs'.d[j] => i = j]_vars
Match(e, g) == e = g
=============================================================================
