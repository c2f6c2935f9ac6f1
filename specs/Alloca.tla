------------------------------- MODULE Alloca -------------------------------
(* static_alloc::leaked::Alloca: the dynamically sized slice on the stack.     *)
(* There is no state between calls; what matters is the case distinction on    *)
(* the size of the request and the exclusive use of nested slices.             *)
EXTENDS Common
CONSTANTS Tiers        \* the sizes (log2) around which lengths are tried
VARIABLES ty, done, obs
vars == <<ty, done, obs>>
View == <<ty, done>>
Max1 == 1048576

InitC(c) == ty = c[1] /\ done = FALSE /\ obs = Obs0
S == TySize[ty]
\* -1 stands for usize::MAX, -2 for half of it, -3 for a length whose layout just overflows
Norm(n) == IF n < 0 THEN Inf ELSE n
Small(n) == \/ S = 0
            \/ n >= 0 /\ n <= Max1 /\ (n + 1) * S <= Max1
TooBig(n) == S > 0 /\ (n < 0 \/ n > Max1 \/ n * S > Max1)
\* v = <<times the closure ran, length, address modulo alignment, contents intact, result passed>>
Good(n, v) == v = <<1, n, 0, 1, 1>>
\* preparing the request (new) never panics, running it may (r would be "unmade")
Refused(g) == g.r \in {"none", "panic"} /\ g.v = <<0, 0, 0, 0, 0>>
One(n, g) ==
  IF n = -1 /\ S = 0 THEN Refused(g) \/ (g.r = "ok" /\ Good(n, g.v))
  ELSE IF Small(n) THEN g.r = "ok" /\ Good(n, g.v)
  ELSE IF TooBig(n) THEN Refused(g)
  ELSE Refused(g) \/ (g.r = "ok" /\ Good(n, g.v))
\* two nested calls: v is both results, and whether the slices are disjoint
Two(n, m, g) == g.r = "ok" /\ g.v = <<1, n, 0, 1, 1, 1, m, 0, 1, 1, 1>>

Apply(o) == /\ ty' = ty /\ done' = TRUE
            /\ obs' = Obs0
Pow(k) == CASE k = 0 -> 1 [] k > 0 -> 2 ^ k
Lens == (0..9) \cup {-1, -2, -3}
        \cup (IF S = 0 THEN {1000, 2000000}
              ELSE UNION {{(Pow(k) \div S) + d : d \in -3..2} : k \in Tiers})
        \cup {Max1 - 1, Max1, Max1 + 1}
Valid == {n \in Lens : n >= -3}
Ops == IF done THEN {}
       ELSE {Op("run", n, 0, 0) : n \in Valid}
            \cup {Op("nest", n, m, 0) : n \in {0, 1, 7, 300}, m \in {0, 1, 5, 200}}
            \cup {Op("again", n, 0, 0) : n \in {0, 1, 3, 40}}
            \cup {Op("unwind", n, 0, 0) : n \in {0, 3}}
Accept(o, g) ==
  /\ ty' = ty /\ done' = TRUE /\ obs' = g
  /\ CASE o.a = "run" -> One(o.x, g)
       [] o.a = "again" -> One(o.x, g)
       [] o.a = "nest" -> Two(o.x, o.y, g)
       [] o.a = "unwind" -> g.r = "panic" /\ g.v = <<1, o.x, 0, 1, 0>>
       [] o.a = "end" -> TRUE
Inv == TRUE
=============================================================================
