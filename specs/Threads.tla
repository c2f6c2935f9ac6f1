------------------------------- MODULE Threads -------------------------------
(* Which handles may be used by a second thread.  A program creates a handle    *)
(* (and possibly another one to the same things), shares it with or sends it to  *)
(* a second thread, and both threads use what they have at the same time.        *)
(* Programs in which that is a race, or in which a thread gets at contents that  *)
(* must stay with another one, must be refused by the compiler.                  *)
EXTENDS Common

\* Classes of contents: 1 plain, 2 may be sent but not shared, 3 may be shared but not sent, 4 neither
Classes == 1..4
\* Kinds of handles:
\*  1 Bump<[T; 4]>  2 unsync Bump    3 Box<MemBump>  4 Chain        5 ExitStack (pinned box)
\*  6 Slot          7 Rc             8 Weak          9 Box         10 FixedVec
\* 11 Drain        12 LeakBox       13 LeakBox<MaybeUninit>        14 Level, Layout, NonZeroLayout
\* 15 LeakError    16 Pin<LeakBox>  17 LeakBox<MemBump>            18 Pin<&mut ExitStack>
\* 19 an unsized Box                20 bump::Failure
Kinds == 1..20
\* What an act does: "atom" changes a counter atomically, "count" changes a counter of all handles of its
\* kind, "peek" reads such a counter, "look" reads the contents, "take" moves, drops or changes the
\* contents, "none" does nothing of interest.
E(r, how, e) == [r |-> r, how |-> how, e |-> e]
\* how: sh through a shared reference, own with the handle itself, al through another handle
Acts == <<
  E(1, "sh", "atom"),    \* u(&$.leak(1u32).is_ok())
  E(1, "sh", "atom"),    \* u(&$.level())
  E(1, "own", "none"),   \* $.reset()
  E(1, "own", "none"),   \* drop($)
  E(2, "sh", "count"),   \* u(&$.bump_box::<u32>().is_ok())
  E(2, "sh", "peek"),    \* u(&$.level())
  E(2, "own", "none"),   \* $.reset()
  E(3, "sh", "count"),   \* u(&$.bump_box::<u32>().is_ok())
  E(3, "sh", "count"),   \* u(&$.alloc(layout()))
  E(3, "own", "none"),   \* $.reset()
  E(4, "sh", "count"),   \* u(&$.bump_box::<u32>().is_ok())
  E(4, "sh", "count"),   \* $.chain(unsync::Chain::new(64).ok().unwrap())
  E(4, "own", "none"),   \* drop($)
  E(5, "sh", "count"),   \* u(&$.as_ref().slot::<u32>().is_some())
  E(5, "own", "take"),   \* $.as_mut().pop_all()
  E(5, "own", "take"),   \* drop($)
  E(6, "own", "count"),  \* u(&$.pin(VAL))
  E(6, "al", "count"),   \* u(&$.pin(VAL))
  E(7, "sh", "count"),   \* u(&$.clone())
  E(7, "sh", "look"),    \* look(&**$)
  E(7, "own", "count"),  \* drop($)
  E(7, "own", "take"),   \* drop($)
  E(7, "own", "take"),   \* u(&Rc::try_unwrap($).is_ok())
  E(7, "al", "count"),   \* drop($)
  E(7, "al", "count"),   \* u(&$.clone())
  E(7, "al", "peek"),    \* u(&Rc::strong_count(&$))
  E(8, "sh", "count"),   \* u(&$.upgrade())
  E(8, "sh", "count"),   \* u(&$.clone())
  E(8, "own", "count"),  \* drop($)
  E(8, "own", "take"),   \* u(&$.upgrade())
  E(8, "al", "count"),   \* u(&$.clone())
  E(8, "al", "count"),   \* drop($)
  E(9, "sh", "look"),    \* look(&**$)
  E(9, "own", "take"),   \* drop($)
  E(9, "own", "take"),   \* u(&Box::take($).0)
  E(10, "sh", "look"),   \* look(&$[0])
  E(10, "own", "take"),  \* drop($)
  E(10, "own", "take"),  \* u(&$.pop())
  E(10, "own", "take"),  \* u(&$.drain(..).next())
  E(11, "sh", "look"),   \* look(&$.as_slice()[0])
  E(11, "own", "take"),  \* u(&$.next())
  E(11, "own", "take"),  \* drop($)
  E(12, "sh", "look"),   \* look(&**$)
  E(12, "own", "take"),  \* drop($)
  E(12, "own", "take"),  \* u(&LeakBox::take($))
  E(13, "own", "none"),  \* drop($)
  E(14, "sh", "none"),   \* u(&$.0)
  E(14, "own", "none"),  \* u(&$)
  E(15, "sh", "none"),   \* u(&$.kind())
  E(15, "own", "take"),  \* u(&$.into_inner())
  E(15, "own", "take"),  \* drop($)
  E(16, "sh", "look"),   \* look(&**$)
  E(16, "own", "take"),  \* drop($)
  E(17, "sh", "count"),  \* u(&$.bump_box::<u32>().is_ok())
  E(17, "own", "none"),  \* $.reset()
  E(18, "sh", "count"),  \* u(&$.as_ref().slot::<u32>().is_some())
  E(18, "own", "take"),  \* $.as_mut().pop_all()
  E(19, "sh", "look"),   \* look(&**$)
  E(19, "own", "take"),  \* drop($)
  E(20, "sh", "none"),   \* u(&$)
  E(20, "own", "none")   \* u(&$)
>>
N == Len(Acts)

VARIABLES kd, cl, \* kind of handle and class of contents
          mode,   \* 0: one thread, 1: the other one has a shared reference, 2: it has the handle; 9: not yet started
          did,    \* what the threads do: acts of the second and of the first one
          obs
vars == <<kd, cl, mode, did, obs>>
View == <<kd, cl, mode, did>>
\* cfg = <<kind, class>>
InitC(c) == kd = c[1] /\ cl = c[2] /\ mode = 9 /\ did = <<>> /\ obs = Obs0

Has(how) == {y \in 1..N : Acts[y].r = kd /\ Acts[y].how = how}
Theirs == IF mode = 1 THEN Has("sh") ELSE Has("own") \cup Has("sh")
\* the first thread has a reference too, or its other handle
Mine == IF mode = 1 THEN Has("sh") ELSE Has("al")
Ops == IF mode = 9 THEN {Op("start", m, 0, 0) : m \in 0..2}
       ELSE IF did = <<>> THEN {Op("act", y, 0, 0) : y \in Theirs}
       ELSE IF Len(did) = 1 THEN {Op("act", y, 0, 0) : y \in Mine} ELSE {}
Apply(o) == CASE o.a = "start" -> mode' = o.x /\ UNCHANGED <<kd, cl, did>> /\ obs' = Obs0
              [] o.a = "act" -> did' = Append(did, o.x) /\ UNCHANGED <<kd, cl, mode>> /\ obs' = Obs0

\* at the same time
Clash(e, f) == \/ "count" \in {e, f} /\ {e, f} \subseteq {"count", "peek"}
               \/ e = "look" /\ f = "look" /\ cl \in {2, 4}
               \/ "take" \in {e, f} /\ {e, f} \subseteq {"look", "take"}
\* A thread that owns the contents ends up destroying them.
Owns == {5, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19}
Alone(e) == mode = 2 /\ cl \in {3, 4} /\ e = "take"
Harm == /\ mode \in {1, 2}
        /\ \/ \E i \in 1..Len(did) : i = 1 /\ Alone(Acts[did[i]].e)
           \/ Len(did) = 2 /\ Clash(Acts[did[1]].e, Acts[did[2]].e)
\* What is promised to work: a Bump, which is made for static variables, is usable from anywhere, and so
\* are plain numbers.  Apart from that a handle may be more restricted than it has to be.
Promised == \/ mode = 0
            \/ kd = 1 /\ (mode = 1 \/ cl \in {1, 2})
            \/ kd \in {14, 20}
            \/ kd = 15 /\ mode = 2 /\ cl \in {1, 2}
Inv == ~(Harm /\ Promised)
Accept(o, g) == IF o.a = "end" THEN /\ UNCHANGED <<kd, cl, mode, did>> /\ obs' = g
                                    /\ Harm => g.r # "acc"
                                    /\ Promised => g.r = "acc"
                ELSE Apply(o)
=============================================================================
