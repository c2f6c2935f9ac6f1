-------------------------------- MODULE Chain -------------------------------
(* static_alloc::unsync::Chain: bump allocators in heap blocks, linked so that *)
(* old ones stay in place.  Values are boxes in a chain; what must be freed    *)
(* when is followed block by block with a recording global allocator.          *)
EXTENDS Common
CONSTANTS MaxLinks, MaxItems, Sizes, Fills

VARIABLES ch,     \* chains: sequences of links, the head first; <<>> if gone
          link,   \* links: capacity, level, base of the data within the block or -1, blocks, align
          it,     \* values: id, size, alignment, chain, link; id -1 if gone
          nx, ty, obs
vars == <<ch, link, it, nx, ty, obs>>
View == <<ch, link, it, nx, ty>>

\* cfg = <<address of blocks modulo 4096, first type, second type>>
InitC(c) == /\ ch = <<>> /\ link = <<>> /\ it = <<>> /\ nx = 1 /\ ty = <<c[2], c[3]>> /\ obs = Obs0

Lnk(cap, bs) == [cap |-> cap, level |-> 0, base |-> -1, bs |-> bs]
Live(i) == it[i].id # -1
Contents(s) == FoldCat([i \in 1..Len(s) |-> IF s[i].id = -1 THEN <<>> ELSE <<s[i].id>>])
Kill(s, S) == [i \in 1..Len(s) |-> IF i \in S THEN [s[i] EXCEPT !.id = -1] ELSE s[i]]
In(x) == {i \in 1..Len(it) : Live(i) /\ it[i].ch = x}
IdsOf(S) == FoldCat([i \in 1..Len(it) |-> IF i \in S THEN <<it[i].id>> ELSE <<>>])
Blocks(ls) == UNION {link[ls[i]].bs : i \in 1..Len(ls)}
Value(t) == IF TyZst(ty[t]) THEN 0 ELSE nx
Unborn(o) == o.a \in {"box"}

\* ------------------------------------------------------------ exploration
Pad(l, a) == PadTo(l, a)
DoNew(x, ok, bs) ==
  /\ ch' = Append(ch, IF ok THEN <<Len(link) + 1>> ELSE <<>>)
  /\ link' = IF ok THEN Append(link, Lnk(x, bs)) ELSE link
  /\ UNCHANGED <<it, nx, ty>>
DoBox(x, t, ok, nl, base) ==
  LET h == ch[x][1] IN
  /\ it' = IF ok THEN Append(it, [id |-> Value(t), ch |-> x, ln |-> h]) ELSE Append(it, [id |-> -1, ch |-> x, ln |-> h])
  /\ link' = IF ok THEN [link EXCEPT ![h].level = nl, ![h].base = base] ELSE link
  /\ nx' = IF ok THEN nx + 1 ELSE nx
  /\ UNCHANGED <<ch, ty>>
\* chain y is put in front of x: only its head is kept
DoChain(x, y) ==
  /\ ch' = [ch EXCEPT ![x] = <<ch[y][1]>> \o ch[x], ![y] = <<>>]
  /\ it' = Kill(it, In(y))
  /\ link' = [link EXCEPT ![ch[y][1]].bs = @] /\ UNCHANGED <<nx, ty>>
\* many values one after another, until there is no room
DoFill(x, nl, base) == /\ link' = [link EXCEPT ![ch[x][1]].level = nl, ![ch[x][1]].base = base]
                       /\ UNCHANGED <<ch, it, nx, ty>>
DoDrop(x) == /\ ch' = [ch EXCEPT ![x] = <<>>] /\ it' = Kill(it, In(x)) /\ UNCHANGED <<link, nx, ty>>
DoDropItem(i) == it' = Kill(it, {i}) /\ UNCHANGED <<ch, link, nx, ty>>
DoEnd == /\ ch' = [i \in 1..Len(ch) |-> <<>>] /\ it' = Kill(it, 1..Len(it)) /\ UNCHANGED <<link, nx, ty>>

Apply(o) ==
  /\ obs' = Obs0
  /\ CASE o.a = "new" -> DoNew(o.x, o.y = 0, {Len(link) + 1})
       [] o.a = "box" -> LET l == link[ch[o.x][1]]  t == ty[o.y]
                             nl == l.level + Pad(l.level, TyAlign[t]) + TySize[t]
                             ok == TyZst(t) \/ nl <= l.cap IN
                         DoBox(o.x, o.y, ok, IF TyZst(t) THEN l.level ELSE nl, 0)
       [] o.a = "fill" -> LET l == link[ch[o.x][1]]  t == ty[o.y]  off == l.level + Pad(l.level, TyAlign[t]) IN
                          DoFill(o.x, IF off + TySize[t] > l.cap THEN l.level ELSE off + TySize[t] * Min(o.z, (l.cap - off) \div TySize[t]), 0)
       [] o.a = "chain" -> DoChain(o.x, o.y)
       [] o.a = "drop" -> DoDrop(o.x)
       [] o.a = "dropitem" -> DoDropItem(o.x)
       [] o.a \in {"deep", "huge", "defhead"} -> UNCHANGED <<ch, link, it, nx, ty>>
Chains == {i \in 1..Len(ch) : ch[i] # <<>>}
Ops == (IF Len(ch) < MaxLinks THEN {Op("new", s, 0, 0) : s \in Sizes} \cup {Op("new", 8, 1, 0), Op("huge", Len(ch) % 3, 0, 0)} ELSE {})
       \cup (IF Len(it) < MaxItems THEN {Op("box", x, t, 0) : x \in Chains, t \in {1, 2}} ELSE {})
       \cup {Op("fill", x, t, z) : x \in Chains, t \in {t \in {1, 2} : ~TyZst(ty[t])}, z \in Fills}
       \cup {Op("chain", p[1], p[2], 0) : p \in {q \in Chains \X Chains : q[1] # q[2]}}
       \cup {Op("drop", x, 0, 0) : x \in Chains}
       \cup {Op("dropitem", i, 0, 0) : i \in {i \in 1..Len(it) : Live(i)}}
\* every link is in one chain at most, values are only in links of their chain
Inv == /\ \A i, j \in 1..Len(ch) : i # j => Range1(ch[i]) \cap Range1(ch[j]) = {}
       /\ \A i \in 1..Len(ch) : Inj(ch[i])
       /\ \A i \in 1..Len(it) : Live(i) => it[i].ln \in Range1(ch[it[i].ch])

\* ---------------------------------------------------------------- judging
\* v = <<block, address modulo 4096, capacity, remaining>>, -1 where nothing is known
\* n = <<block, size, align>> of every allocation, m = <<block, released properly>> of every release
\* c = values, v[5] = 1: everything in place, aligned, guard bytes intact
Every3(s) == {s[3 * i + 1] : i \in 0..(Len(s) \div 3 - 1)}
Freed(g) == {g.m[2 * i + 1] : i \in 0..(Len(g.m) \div 2 - 1)}
\* exactly these blocks were released, each once and properly
Releases(g, S) == /\ Len(g.m) = 2 * Cardinality(S)
                  /\ Freed(g) = S
                  /\ \A i \in 0..(Len(g.m) \div 2 - 1) : g.m[2 * i + 2] = 1
Fine(g) == g.v[5] = 1
Accept(o, g) ==
  /\ obs' = g /\ Fine(g)
  /\ CASE o.a = "new" ->
            /\ g.r = IF o.y = 0 THEN "ok" ELSE "err"
            /\ IF o.y = 0 THEN g.n # <<>> /\ g.v[3] = o.x /\ g.v[4] = o.x ELSE g.n = <<>>
            /\ g.m = <<>> /\ g.d = <<>>
            /\ DoNew(o.x, o.y = 0, Every3(g.n))
       [] o.a = "huge" -> g.r = "err" /\ g.m = <<>> /\ g.n = <<>> /\ g.d = <<>> /\ UNCHANGED <<ch, link, it, nx, ty>>
       [] o.a = "box" ->
            LET h == ch[o.x][1]  l == link[h]  t == ty[o.y]  s == TySize[t]  a == TyAlign[t]
                nl == g.v[3] - g.v[4]                         \* level afterwards
                base == g.v[2] + s - nl                       \* follows from the place and the level
                off(b) == l.level + PadTo(b + l.level, a) IN
            /\ g.n = <<>> /\ g.m = <<>> /\ g.d = <<>> /\ g.v[3] = l.cap
            /\ IF TyZst(t) THEN g.r = "ok" /\ nl = l.level /\ DoBox(o.x, o.y, TRUE, nl, l.base)
               ELSE IF g.r = "ok"
               THEN /\ {g.v[1]} \subseteq l.bs
                    /\ l.base # -1 => base = l.base
                    /\ base >= 0 /\ nl <= l.cap
                    /\ g.v[2] = base + off(base)
                    /\ DoBox(o.x, o.y, TRUE, nl, base)
               ELSE /\ g.r = "exh" /\ nl = l.level
                    /\ IF l.base # -1 THEN off(l.base) + s > l.cap ELSE l.level + s + a - 1 > l.cap
                    /\ DoBox(o.x, o.y, FALSE, nl, l.base)
       [] o.a = "fill" ->
            LET h == ch[o.x][1]  l == link[h]  t == ty[o.y]  s == TySize[t]  a == TyAlign[t]
                nl == g.v[3] - g.v[4]
                base == IF g.v[1] = -1 THEN l.base ELSE g.v[2] + s - nl
                off == l.level + PadTo(base + l.level, a)
                k == (nl - off) \div s IN
            /\ g.n = <<>> /\ g.m = <<>> /\ g.d = <<>> /\ g.v[3] = l.cap /\ nl <= l.cap
            /\ g.r \in {"ok", "exh"}
            /\ IF g.v[1] # -1
               THEN /\ {g.v[1]} \subseteq l.bs /\ (l.base # -1 => base = l.base) /\ base >= 0
                    /\ nl - off = k * s /\ k >= 1 /\ k <= o.z
                    /\ IF g.r = "ok" THEN k = o.z ELSE k < o.z /\ nl + s > l.cap
               ELSE /\ g.r = "exh" /\ nl = l.level
                    /\ IF l.base # -1 THEN off + s > l.cap ELSE l.level + s + a - 1 > l.cap
            /\ DoFill(o.x, nl, base)
       [] o.a = "chain" -> LET y == ch[o.y] IN
            /\ g.r = "ok" /\ g.n = <<>> /\ SameBag(g.d, IdsOf(In(o.y)))
            /\ Releases(g, Blocks(Tail(y)))
            /\ g.v[3] = link[y[1]].cap /\ g.v[4] = link[y[1]].cap - link[y[1]].level
            /\ DoChain(o.x, o.y)
       [] o.a = "drop" ->
            /\ g.r = "ok" /\ g.n = <<>> /\ SameBag(g.d, IdsOf(In(o.x)))
            /\ Releases(g, Blocks(ch[o.x])) /\ DoDrop(o.x)
       [] o.a = "dropitem" -> /\ g.r = "ok" /\ g.n = <<>> /\ g.m = <<>> /\ g.d = <<it[o.x].id>>
                              /\ DoDropItem(o.x)
       [] o.a = "skip" -> UNCHANGED <<ch, link, it, nx, ty>>
       \* a long chain: all links are released, within bounded stack
       [] o.a = "deep" -> /\ g.r = "ok" /\ g.v[1] = o.x /\ g.v[2] = o.x /\ g.v[3] = 0
                          /\ UNCHANGED <<ch, link, it, nx, ty>>
       [] o.a = "end" -> /\ SameBag(g.d, Contents(it))
                         /\ Releases(g, UNION {Blocks(ch[i]) : i \in 1..Len(ch)})
                         /\ DoEnd
  /\ o.a \in {"deep"} \/ SameBag(g.c, Contents(it'))
=============================================================================
