--------------------------------- MODULE Rc ---------------------------------
(* without_alloc::rc: Rc and Weak over borrowed memory.  Values may hold a     *)
(* handle themselves and use it in their destructor.                           *)
EXTENDS Common
CONSTANTS MaxBlocks, MaxHandles, MaxId, Many

VARIABLES blk,    \* blocks: state, strong and weak owners, value, handle the value holds, its action
          hnd,    \* handles of the program: kind, block
          nx, ty, obs
vars == <<blk, hnd, nx, ty, obs>>
View == <<blk, hnd, nx, ty>>

\* cfg = <<type of the values>>; 12: a value that may hold a handle
InitC(c) == /\ blk = <<>> /\ hnd = <<>> /\ nx = 1 /\ ty = c[1] /\ obs = Obs0

\* n: how many handles, only for those kept together: kinds "rcs" and "weaks"
H(k, b) == [k |-> k, b |-> b, n |-> 1]
NoH == H("gone", 0)
Node == ty = 12
Zst == ~Node /\ TyZst(ty)
Id(i) == IF Zst THEN 0 ELSE i
\* st: live (has a value), dying (its destructor runs), dead (value gone, memory owned by weak
\* handles), raw (turned into a raw handle), free (memory handed back), lost
Block(st, i) == [st |-> st, s |-> 1, w |-> 1, id |-> i, tied |-> NoH, act |-> 0]

\* ------------------------------------------------- destruction, recursive
\* a run of destructors works on s = [b: blocks, d: log, out: handles that escape]
SetB(s, b, f) == [s EXCEPT !.b[b] = f]
RECURSIVE DropRc(_, _), DropValue(_, _)
\* a weak handle goes away
DropWeak(s, b) == [s EXCEPT !.b[b].w = @ - 1]
DropH(s, h) == CASE h.k = "rc" -> DropRc(s, h.b)
                 [] h.k = "rcs" -> IF s.b[h.b].s > h.n THEN [s EXCEPT !.b[h.b].s = @ - h.n]
                                   ELSE DropRc([s EXCEPT !.b[h.b].s = 1], h.b)
                 [] h.k = "weaks" -> [s EXCEPT !.b[h.b].w = @ - h.n]
                 [] h.k = "weak" -> DropWeak(s, h.b)
                 [] OTHER -> s
Log(s, c) == [s EXCEPT !.d = Append(@, c)]
Escape(s, h) == [s EXCEPT !.out = Append(@, h)]
\* the destructor body of a value holding handle h: <<state, handle that is left>>
Act(s, h, a) ==
  CASE h.k = "gone" -> <<s, h>>
    [] a = 1 /\ h.k = "weak" -> <<Log(s, IF s.b[h.b].s > 0 THEN -21 ELSE -20), h>>   \* upgrade, drop again
    [] a = 2 -> <<Escape(IF h.k = "rc" THEN [s EXCEPT !.b[h.b].s = @ + 1] ELSE [s EXCEPT !.b[h.b].w = @ + 1], h), h>>
    [] a = 3 /\ h.k = "weak" ->                                                      \* release the memory
         IF s.b[h.b].s = 0 /\ s.b[h.b].w = 1
         THEN <<Escape(Log([s EXCEPT !.b[h.b].st = "free", !.b[h.b].w = 0], -31), H("mem", h.b)), NoH>>
         ELSE <<Log(s, -30), h>>
    [] a = 4 -> <<Escape(s, h), NoH>>
    [] a = 5 /\ h.k = "weak" ->                                                      \* upgrade and keep it
         IF s.b[h.b].s > 0 THEN <<Escape(Log([s EXCEPT !.b[h.b].s = @ + 1], -21), H("rc", h.b)), h>>
         ELSE <<Log(s, -20), h>>
    [] OTHER -> <<s, h>>
DropValue(s, b) ==
  LET x == s.b[b]
      p == Act([s EXCEPT !.b[b].tied = NoH], x.tied, x.act)
      s1 == Log(p[1], x.id)
  IN DropH(s1, p[2])
\* a strong handle goes away; the strong ones together own one weak share
DropRc(s, b) ==
  IF s.b[b].s > 1 THEN [s EXCEPT !.b[b].s = @ - 1]
  ELSE LET s1 == DropValue([s EXCEPT !.b[b].s = 0, !.b[b].st = "dying"], b)
       IN [s1 EXCEPT !.b[b].w = @ - 1, !.b[b].st = "dead"]
St0 == [b |-> blk, d |-> <<>>, out |-> <<>>]
Drops(d) == Len(SelectSeq(d, LAMBDA x : x >= 0))

\* -------------------------------------------------------------- operations
Kill(s, i) == [s EXCEPT ![i] = NoH]
\* what the program sees: through every handle the counts, through every Rc the value
Counts(b, h) == FoldCat([i \in 1..Len(h) |->
   CASE h[i].k \in {"rc", "weak"} -> <<b[h[i].b].s, b[h[i].b].w>>
     [] h[i].k \in {"raw", "mem", "rcs", "weaks"} -> <<-1, -1>>
     [] OTHER -> <<>>])
Values(b, h) == FoldCat([i \in 1..Len(h) |-> IF h[i].k \in {"rc", "raw"} THEN <<b[h[i].b].id>> ELSE <<>>])
Res(r, d, n, m) == obs' = O7(r, <<1>> \o Counts(blk', hnd'), d, Values(blk', hnd'), n, m, 1)
Same == UNCHANGED <<ty>>

\* x: the memory handed in: 0 exact, 1 larger, 2 too small, 3 misaligned, 4 empty
New(x) == LET ok == x \in {0, 1}  i == Id(nx) IN
  /\ blk' = IF ok THEN Append(blk, Block("live", i)) ELSE blk
  /\ hnd' = Append(hnd, IF ok THEN H("rc", Len(blk) + 1) ELSE NoH)
  /\ nx' = nx + 1 /\ Same
  /\ Res(IF ok THEN "ok" ELSE "panic", IF ok THEN <<>> ELSE <<i>>, <<i>>, <<>>)
Is(i, K) == i \in 1..Len(hnd) /\ hnd[i].k \in K
B(i) == hnd[i].b
Clone(i) ==
  /\ blk' = IF hnd[i].k = "rc" THEN [blk EXCEPT ![B(i)].s = @ + 1] ELSE [blk EXCEPT ![B(i)].w = @ + 1]
  /\ hnd' = Append(hnd, hnd[i]) /\ UNCHANGED nx /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Down(i) ==
  /\ blk' = [blk EXCEPT ![B(i)].w = @ + 1] /\ hnd' = Append(hnd, H("weak", B(i)))
  /\ UNCHANGED nx /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
\* n handles of the same kind, or n weak ones
Several(i, n, k) ==
  /\ blk' = IF k = "rcs" THEN [blk EXCEPT ![B(i)].s = @ + n] ELSE [blk EXCEPT ![B(i)].w = @ + n]
  /\ hnd' = Append(hnd, [H(k, B(i)) EXCEPT !.n = n]) /\ UNCHANGED nx /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Up(i) ==
  LET ok == blk[B(i)].s > 0 IN
  /\ blk' = IF ok THEN [blk EXCEPT ![B(i)].s = @ + 1] ELSE blk
  /\ hnd' = Append(hnd, IF ok THEN H("rc", B(i)) ELSE NoH)
  /\ UNCHANGED nx /\ Same /\ Res(IF ok THEN "ok" ELSE "none", <<>>, <<>>, <<>>)
\* p: that destructor panics; everything happens nevertheless
Drop(i, p) ==
  LET s == DropH(St0, hnd[i]) IN
  /\ blk' = s.b /\ hnd' = Kill(hnd, i) \o s.out
  /\ UNCHANGED nx /\ Same
  /\ Res(IF p \in 1..Drops(s.d) THEN "panic" ELSE "ok", s.d, <<>>, <<>>)
\* the value is moved out, a weak handle stays
Unwrap(i) ==
  LET b == B(i)  x == blk[b] IN
  /\ UNCHANGED nx /\ Same
  /\ IF x.s = 1
     THEN /\ blk' = [blk EXCEPT ![b].s = 0, ![b].st = "dead", ![b].tied = NoH]
          /\ hnd' = [hnd EXCEPT ![i] = H("weak", b)] \o (IF x.tied.k = "gone" THEN <<>> ELSE <<x.tied>>)
          /\ Res("ok", <<>>, <<>>, <<x.id>>)
     ELSE blk' = blk /\ hnd' = hnd /\ Res("err", <<>>, <<>>, <<>>)
Unique(b) == blk[b].s = 1 /\ blk[b].w = 1
\* exclusive access: the value is replaced
GetMut(i) ==
  LET b == B(i)  j == Id(nx) IN
  /\ hnd' = hnd /\ Same
  /\ IF Unique(b) THEN /\ blk' = [blk EXCEPT ![b].id = j] /\ nx' = nx + 1
                       /\ Res("ok", <<>>, <<j>>, <<blk[b].id>>)
     ELSE blk' = blk /\ nx' = nx /\ Res("none", <<>>, <<>>, <<>>)
IntoRaw(i) ==
  /\ UNCHANGED <<nx>> /\ Same
  /\ IF Unique(B(i)) THEN /\ hnd' = [hnd EXCEPT ![i] = H("raw", B(i))]
                          /\ blk' = [blk EXCEPT ![B(i)].st = "raw"]
                          /\ Res("ok", <<>>, <<>>, <<>>)
     ELSE UNCHANGED <<hnd, blk>> /\ Res("err", <<>>, <<>>, <<>>)
FromRaw(i) ==
  /\ hnd' = [hnd EXCEPT ![i] = H("rc", B(i))] /\ blk' = [blk EXCEPT ![B(i)].st = "live"]
  /\ UNCHANGED nx /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
\* the memory comes back only to the last owner of any kind
WeakUnwrap(i) ==
  LET ok == blk[B(i)].s = 0 /\ blk[B(i)].w = 1 IN
  /\ UNCHANGED nx /\ Same
  /\ blk' = IF ok THEN [blk EXCEPT ![B(i)].w = 0, ![B(i)].st = "free"] ELSE blk
  /\ hnd' = IF ok THEN [hnd EXCEPT ![i] = H("mem", B(i))] ELSE hnd
  /\ Res(IF ok THEN "ok" ELSE "err", <<>>, <<>>, <<>>)
\* use memory that came back
Renew(i) ==
  /\ blk' = [blk EXCEPT ![B(i)] = Block("live", Id(nx))]
  /\ hnd' = [hnd EXCEPT ![i] = H("rc", B(i))] /\ nx' = nx + 1 /\ Same
  /\ Res("ok", <<>>, <<Id(nx)>>, <<>>)
\* handle j moves into the value behind i
Tie(i, j, a) ==
  /\ blk' = [blk EXCEPT ![B(i)].tied = hnd[j], ![B(i)].act = a] /\ hnd' = Kill(hnd, j)
  /\ UNCHANGED nx /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
RECURSIVE DropAll(_, _)
DropAll(s, h) ==
  IF h = <<>> /\ s.out = <<>> THEN s
  ELSE IF h = <<>> THEN DropAll([s EXCEPT !.out = <<>>], s.out)
  ELSE DropAll(DropH(s, Head(h)), Tail(h))
End == LET s == DropAll(St0, hnd) IN
       /\ blk' = s.b /\ hnd' = <<>> /\ UNCHANGED nx /\ Same /\ Res("ok", s.d, <<>>, <<>>)
Skip0 == UNCHANGED <<blk, hnd, nx, ty>> /\ Res("skip", <<>>, <<>>, <<>>)

CanTie(i, j) == Node /\ i # j /\ Is(i, {"rc"}) /\ Is(j, {"rc", "weak"}) /\ blk[B(i)].tied.k = "gone"
Apply(o) ==
  CASE o.a = "new" -> New(o.x)
    [] o.a = "clone" -> IF Is(o.x, {"rc", "weak"}) THEN Clone(o.x) ELSE Skip0
    [] o.a = "down" -> IF Is(o.x, {"rc"}) THEN Down(o.x) ELSE Skip0
    [] o.a = "up" -> IF Is(o.x, {"weak"}) THEN Up(o.x) ELSE Skip0
    [] o.a = "many" -> IF Is(o.x, {"rc"}) THEN Several(o.x, o.y, "rcs") ELSE IF Is(o.x, {"weak"}) THEN Several(o.x, o.y, "weaks") ELSE Skip0
    [] o.a = "manydown" -> IF Is(o.x, {"rc"}) THEN Several(o.x, o.y, "weaks") ELSE Skip0
    [] o.a = "drop" -> IF Is(o.x, {"rc", "weak", "raw", "mem", "rcs", "weaks"}) THEN Drop(o.x, o.y) ELSE Skip0
    [] o.a = "unwrap" -> IF Is(o.x, {"rc"}) THEN Unwrap(o.x) ELSE Skip0
    [] o.a = "getmut" -> IF Is(o.x, {"rc"}) THEN GetMut(o.x) ELSE Skip0
    [] o.a = "intoraw" -> IF Is(o.x, {"rc"}) THEN IntoRaw(o.x) ELSE Skip0
    [] o.a = "fromraw" -> IF Is(o.x, {"raw"}) THEN FromRaw(o.x) ELSE Skip0
    [] o.a = "wunwrap" -> IF Is(o.x, {"weak"}) THEN WeakUnwrap(o.x) ELSE Skip0
    [] o.a = "renew" -> IF Is(o.x, {"mem"}) THEN Renew(o.x) ELSE Skip0
    [] o.a = "tie" -> IF CanTie(o.x, o.y) THEN Tie(o.x, o.y, o.z) ELSE Skip0
    [] o.a = "end" -> End

Hs(K) == {i \in 1..Len(hnd) : hnd[i].k \in K}
More == Len(hnd) < MaxHandles
Ops == (IF More /\ Len(blk) < MaxBlocks /\ nx <= MaxId THEN {Op("new", x, 0, 0) : x \in 0..4} ELSE {})
       \cup (IF More THEN {Op("clone", i, 0, 0) : i \in Hs({"rc", "weak"})} \cup {Op("down", i, 0, 0) : i \in Hs({"rc"})}
                          \cup {Op("up", i, 0, 0) : i \in Hs({"weak"})} ELSE {})
       \cup (IF More THEN {Op("many", i, n, 0) : i \in Hs({"rc", "weak"}), n \in Many} \cup {Op("manydown", i, n, 0) : i \in Hs({"rc"}), n \in Many} ELSE {})
       \cup {Op("drop", i, p, 0) : i \in Hs({"rc"}), p \in 0..1} \cup {Op("drop", i, 0, 0) : i \in Hs({"weak", "mem", "rcs", "weaks"})}
       \cup {Op("drop", i, 2, 0) : i \in {j \in Hs({"rc"}) : Node}}
       \cup {Op(a, i, 0, 0) : a \in {"unwrap", "intoraw"}, i \in Hs({"rc"})}
       \cup (IF nx <= MaxId THEN {Op("getmut", i, 0, 0) : i \in Hs({"rc"})} \cup {Op("renew", i, 0, 0) : i \in Hs({"mem"})} ELSE {})
       \cup {Op("fromraw", i, 0, 0) : i \in Hs({"raw"})}
       \cup {Op("wunwrap", i, 0, 0) : i \in Hs({"weak"})}
       \cup UNION {{Op("tie", p[1], p[2], a) : a \in IF hnd[p[2]].k = "rc" THEN {0, 2, 4} ELSE 0..5} : p \in {q \in Hs({"rc"}) \X Hs({"rc", "weak"}) : CanTie(q[1], q[2])}}

\* the counts are exact: what the program and living values hold
RECURSIVE Pack(_, _, _)
Pack(k, b, i) == IF i = 0 THEN 0 ELSE Pack(k, b, i - 1) + (IF hnd[i].k = k \o "s" /\ hnd[i].b = b THEN hnd[i].n ELSE 0)
Held(k, b) == Cardinality({i \in 1..Len(hnd) : hnd[i] = H(k, b)}) + (IF \E i \in 1..Len(hnd) : hnd[i].n # 1 THEN Pack(k, b, Len(hnd)) ELSE 0)
              + Cardinality({c \in 1..Len(blk) : blk[c].tied = H(k, b)})
Inv == \A b \in 1..Len(blk) :
       LET x == blk[b] IN
       /\ x.st \in {"live", "dead"} => x.s = Held("rc", b) /\ x.w = Held("weak", b) + (IF x.s > 0 THEN 1 ELSE 0)
       /\ x.st = "live" <=> (x.s > 0 /\ x.st # "raw")
       /\ x.st \in {"raw", "free"} => Held("rc", b) = 0 /\ Held("weak", b) = 0
       /\ Held("mem", b) <= 1 /\ (Held("mem", b) = 1 => x.st = "free")
Match(e, g) == e = g
=============================================================================
