----------------------------- MODULE ExitStack ------------------------------
(* exit_stack::ExitStack: slots are reserved, values pinned into them, and all *)
(* of them dropped in reverse order of pinning when the stack is cleared or    *)
(* goes away, also if a destructor panics.                                     *)
EXTENDS Common
CONSTANTS MaxSlots, MaxId

VARIABLES sl,      \* slots since the memory was reset: state, type, value
          order,   \* pinned slots, oldest first
          used,    \* upper bound of the memory in use
          nx, ty, obs
vars == <<sl, order, used, nx, ty, obs>>
View == <<sl, order, used, nx, ty>>

\* cfg = <<type of the memory, first type, second type>>
InitC(c) == /\ sl = <<>> /\ order = <<>> /\ used = 0 /\ nx = 1 /\ ty = c /\ obs = Obs0

\* a slot holds a link to the next one, and the value
Al(t) == Max(8, TyAlign[ty[t]])
RoundUp(n, a) == n + PadTo(n, a)
Need(t) == RoundUp(16 + TySize[ty[t]], Al(t))
Memory == Need(1)
Slack(t) == Al(t) - 8
MayFail(t) == ~(used = 0 /\ t = 1) /\ used + Need(t) + Slack(t) > Memory
MustFail(t) == used = 0 /\ Need(t) > Memory + 56

Id(t) == IF TyZst(ty[t]) THEN 0 ELSE nx
Ids(s, o) == [i \in 1..Len(o) |-> s[o[i]].id]
Slot(k, t) == [k |-> k, t |-> t, id |-> 0]
Res(r, d, c, n, m) == obs' = O7(r, <<1>>, d, c, n, m, 1)

DoSlot(t, ok) ==
  /\ sl' = Append(sl, Slot(IF ok THEN "free" ELSE "gone", t))
  /\ used' = IF ok THEN used + Need(t) + Slack(t) ELSE used
  /\ UNCHANGED <<order, nx, ty>>
  /\ Res(IF ok THEN "ok" ELSE "none", <<>>, Ids(sl, order), <<>>, <<>>)
DropSlot(i) ==
  /\ sl' = [sl EXCEPT ![i].k = "gone"] /\ UNCHANGED <<order, used, nx, ty>>
  /\ Res("ok", <<>>, Ids(sl, order), <<>>, <<>>)
Pin(i) ==
  /\ sl' = [sl EXCEPT ![i].k = "pinned", ![i].id = Id(sl[i].t)]
  /\ order' = Append(order, i)
  /\ nx' = nx + 1 /\ UNCHANGED <<used, ty>>
  /\ Res("ok", <<>>, Ids(sl', order'), <<Id(sl[i].t)>>, <<>>)
\* p: which destructor panics, all the others are run nevertheless
Pans(p) == p \in 1..Len(order)
PopAll(p) ==
  /\ sl' = <<>> /\ order' = <<>> /\ used' = IF Pans(p) THEN used ELSE 0
  /\ UNCHANGED <<nx, ty>>
  /\ Res(IF Pans(p) THEN "panic" ELSE "ok", Rev(Ids(sl, order)), <<>>, <<>>, <<>>)
Set(p) ==
  LET old == Rev(Ids(sl, order))  new == Id(1) IN
  /\ nx' = nx + 1 /\ ty' = ty
  /\ IF Pans(p)
     THEN /\ sl' = <<>> /\ order' = <<>> /\ used' = used
          /\ Res("panic", Append(old, new), <<>>, <<new>>, <<>>)
     ELSE /\ sl' = <<[Slot("pinned", 1) EXCEPT !.id = new]>> /\ order' = <<1>>
          /\ used' = Need(1) + Slack(1)
          /\ Res("ok", old, <<new>>, <<new>>, <<>>)
\* the stack goes away, a new one takes its place
Close(p) == /\ sl' = <<>> /\ order' = <<>> /\ used' = 0 /\ UNCHANGED <<nx, ty>>
            /\ Res(IF Pans(p) THEN "panic" ELSE "ok", Rev(Ids(sl, order)), <<>>, <<>>, <<>>)
Skip0 == UNCHANGED <<sl, order, used, nx, ty>> /\ Res("skip", <<>>, Ids(sl, order), <<>>, <<>>)

\* a stack of its own with many values, one of which may panic: all are dropped, newest first,
\* within bounded stack; m = <<pinned, dropped in order, dropped>>
Deep(n, p) == UNCHANGED <<sl, order, used, nx, ty>>
              /\ Res(IF p \in 1..n THEN "panic" ELSE "ok", <<>>, Ids(sl, order), <<>>, <<n, n, n>>)

Do(o, ok) ==
  CASE o.a = "deep" -> Deep(o.x, o.y) [] o.a = "slot" -> DoSlot(o.x, ok)
    [] o.a = "dropslot" -> IF o.x \in 1..Len(sl) /\ sl[o.x].k = "free" THEN DropSlot(o.x) ELSE Skip0
    [] o.a \in {"pin", "pinl"} -> IF o.x \in 1..Len(sl) /\ sl[o.x].k = "free" THEN Pin(o.x) ELSE Skip0
    [] o.a = "popall" -> PopAll(o.x)
    [] o.a = "set" -> Set(o.x)
    [] o.a = "close" -> Close(o.x)
    [] o.a = "end" -> Close(0)
Apply(o) == Do(o, ~(o.a = "slot" /\ MayFail(o.x)))

Free == {i \in 1..Len(sl) : sl[i].k = "free"}
Pan == 0..Len(order)
Ops == (IF Len(sl) < MaxSlots THEN {Op("slot", t, 0, 0) : t \in 1..3} ELSE {})
       \cup {Op("dropslot", i, 0, 0) : i \in Free}
       \cup (IF nx <= MaxId THEN {Op(a, i, 0, 0) : a \in {"pin", "pinl"}, i \in Free}
                                 \cup {Op("set", p, 0, 0) : p \in Pan} ELSE {})
       \cup (IF sl # <<>> THEN {Op("popall", p, 0, 0) : p \in Pan} ELSE {})
       \cup (IF order # <<>> THEN {Op("close", p, 0, 0) : p \in Pan} ELSE {})
Inv == /\ Inj(order)
       /\ \A i \in 1..Len(sl) : sl[i].k = "pinned" <=> i \in Range1(order)

Accept(o, g) ==
  /\ Do(o, g.r # "none")
  /\ o.a = "slot" /\ g.r = "none" => MayFail(o.x)
  /\ o.a = "slot" /\ g.r = "ok" => ~MustFail(o.x)
  /\ obs' = g
Match(e, g) == e = g
=============================================================================
