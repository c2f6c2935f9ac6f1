-------------------------------- MODULE Views --------------------------------
(* Box, Rc, FixedVec and LeakBox stand for their contents: they compare, order, *)
(* hash, print, index and convert to references as the contents would.          *)
EXTENDS Common
CONSTANTS MaxLen, Vals, MaxLong    \* how long sequences are loaded, and may become by appending

VARIABLES con,   \* contents of both handles
          kind, et, obs
vars == <<con, kind, et, obs>>
View == <<con, kind, et>>

\* cfg = <<kind: 1 Box, 2 Rc, 3 FixedVec, 4 LeakBox of a value, 5 LeakBox of a slice; element type>>
\* element types: 1 partially ordered (value 3 is unordered, and unequal to itself), 2 totally
\* ordered, 3 zero-sized (only value 0), 4 a large aligned one, totally ordered
InitC(c) == /\ kind = c[1] /\ et = c[2] /\ obs = Obs0
            /\ con = IF c[1] \in {3, 5} THEN <<<<>>, <<>>>> ELSE <<<<0>>, <<0>>>>

Slice == kind \in {3, 5}
\* the order of the elements is not the one of their bytes
Key(v) == CASE v = 0 -> 2 [] v = 1 -> 0 [] v = 2 -> 3 [] v = 3 -> 1
Unord(v) == et = 1 /\ v = 3
\* 0: equal, -1 less, 1 greater, 2 unordered
PC(v, w) == IF Unord(v) \/ Unord(w) THEN 2 ELSE IF Key(v) = Key(w) THEN 0 ELSE IF Key(v) < Key(w) THEN -1 ELSE 1
Lex(s, t) == LET n == Min(Len(s), Len(t))  D == {i \in 1..n : PC(s[i], t[i]) # 0} IN
             IF D # {} THEN LET i == CHOOSE i \in D : \A j \in D : i <= j IN PC(s[i], t[i])
             ELSE IF Len(s) = Len(t) THEN 0 ELSE IF Len(s) < Len(t) THEN -1 ELSE 1
Same(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : PC(s[i], t[i]) = 0
B(x) == IF x THEN 1 ELSE 0
Verdict(s, t) == LET p == Lex(s, t) IN
  <<B(Same(s, t)), B(~Same(s, t)), B(p = -1), B(p \in {-1, 0}), B(p = 1), B(p \in {0, 1}), p, IF et = 1 THEN 9 ELSE p>>

Contents == con[1] \o con[2]
Res(r, v, c, m) == con' = c /\ UNCHANGED <<kind, et>> /\ obs' = O7(r, v, <<>>, c[1] \o c[2], <<>>, m, 1)

\* a code has one base 5 digit for every element, 0 ends it
RECURSIVE Decode(_)
Decode(y) == IF y = 0 THEN <<>> ELSE <<(y % 5) - 1>> \o Decode(y \div 5)
RECURSIVE Code(_)
Code(s) == IF s = <<>> THEN 0 ELSE Head(s) + 1 + 5 * Code(Tail(s))

Apply(o) ==
  LET s == con[o.x]  i == o.y + 1 IN
  CASE o.a = "load" -> Res("ok", <<>>, [con EXCEPT ![o.x] = Decode(o.y)], <<>>)
    [] o.a = "app" -> Res("ok", <<>>, [con EXCEPT ![o.x] = s \o Decode(o.y)], <<>>)
    \* many of them
    [] o.a = "many" -> LET d == Decode(o.y) IN Res("ok", <<>>, [con EXCEPT ![o.x] = s \o [j \in 1..(Len(d) * o.z) |-> d[1 + ((j - 1) % Len(d))]]], <<>>)
    \* the contents of the other one
    [] o.a = "copy" -> Res("ok", <<>>, [con EXCEPT ![o.x] = con[3 - o.x]], <<>>)
    \* first and second operand
    [] o.a = "cmp" -> Res("ok", Verdict(con[o.x], con[o.y]), con, <<>>)
    \* v: the hasher saw what it would see of the contents; m: the elements it saw
    [] o.a = "hash" -> Res("ok", <<1>>, con, [j \in 1..Len(s) |-> Key(s[j])])
    \* y: how it is printed
    [] o.a = "fmt" -> Res("ok", <<1>>, con, <<>>)
    \* y: through which reference; v: it is the place of the contents
    [] o.a = "ref" -> Res("ok", <<1>>, con, s)
    \* z: value * 8 + through which mutable reference
    [] o.a = "put" -> Res("ok", <<1>>, [con EXCEPT ![o.x] = [s EXCEPT ![i] = o.z \div 8]], <<>>)
    [] o.a = "at" -> IF o.y < Len(s) THEN Res("ok", <<>>, con, <<s[i]>>) ELSE Res("panic", <<>>, con, <<>>)
    \* y..z, with -1 for an open end
    [] o.a = "sub" -> LET lo == IF o.y = -1 THEN 0 ELSE o.y  hi == IF o.z = -1 THEN Len(s) ELSE o.z IN
                      IF lo <= hi /\ hi <= Len(s) THEN Res("ok", <<>>, con, SubSeq(s, lo + 1, hi)) ELSE Res("panic", <<>>, con, <<>>)
    [] o.a = "end" -> Res("ok", <<>>, con, <<>>)

Seqs == UNION {[1..n -> Vals] : n \in (IF Slice THEN 0..MaxLen ELSE {1})}
Values == IF et = 3 THEN {s \in Seqs : \A j \in 1..Len(s) : s[j] = 0} ELSE Seqs
Modes == CASE kind = 1 -> {0, 1, 2, 3, 6} [] kind = 2 -> 0..6 [] kind = 3 -> {} [] kind = 4 -> 0..6 [] kind = 5 -> {0, 1, 2, 3, 6}
Refs == CASE kind = 1 -> 0..5 [] kind = 2 -> 0..2 [] kind = 3 -> 0..5 [] OTHER -> {0, 1, 3, 4}
MutRefs == CASE kind = 2 -> {6} [] OTHER -> {r \in Refs : r >= 3} \cup (IF kind = 3 THEN {7} ELSE {})
Places(n) == IF n <= 8 THEN -1..n ELSE {-1, 0, 1, 7, n \div 2, n - 3, n - 1, n}
Longer == {<<0, 1, 2, 1, 0, 2>>, <<2, 2, 1, 0, 1, 0>>, <<0, 3, 1, 2, 3, 1>>}
Ops == {Op("load", w, Code(s), 0) : w \in 1..2, s \in Values}
       \cup (IF Slice /\ MaxLong > 0 THEN {Op("app", w, Code(s), 0) : w \in {u \in 1..2 : Len(con[u]) + 6 <= MaxLong},
                                                                     s \in {IF et = 3 THEN [j \in 1..6 |-> 0] ELSE t : t \in Longer}}
                                      \cup {Op("many", w, Code(IF et = 3 THEN [j \in 1..6 |-> 0] ELSE t), n) : t \in Longer, n \in {m \in {20, 43, 85} : MaxLong >= 6 * m},
                                                                   w \in {u \in 1..2 : Len(con[u]) + 510 <= MaxLong}}
                                      \cup {Op("copy", w, 0, 0) : w \in 1..2} ELSE {})
       \cup (IF kind <= 3 THEN {Op("cmp", w, u, 0) : w \in 1..2, u \in 1..2} ELSE {})
       \cup (IF et # 1 THEN {Op("hash", 1, 0, 0)} ELSE {})
       \cup {Op("fmt", 1, m, 0) : m \in Modes}
       \cup {Op("ref", 1, r, 0) : r \in Refs}
       \cup {Op("put", 1, j - 1, 8 * v + r) : j \in {i + 1 : i \in Places(Len(con[1]) - 1) \ {-1}}, v \in (IF et = 3 THEN {0} ELSE Vals), r \in MutRefs}
       \cup (IF kind = 3 THEN {Op("at", 1, j, 0) : j \in Places(Len(con[1]) + 1) \ {-1}} ELSE {})
       \cup (IF kind = 3 THEN {Op("sub", 1, j, l) : j \in Places(Len(con[1]) + 1), l \in Places(Len(con[1]) + 1)} ELSE {})

\* what users of the traits rely on
Flip(p) == IF p \in {-1, 1} THEN -p ELSE p
Inv == LET s == con[1]  t == con[2] IN
  /\ Lex(t, s) = Flip(Lex(s, t))
  /\ Same(s, t) <=> Lex(s, t) = 0
  /\ et # 1 => (Lex(s, t) = 0 <=> s = t) /\ Lex(s, t) # 2
Match(e, g) == e = g
=============================================================================
