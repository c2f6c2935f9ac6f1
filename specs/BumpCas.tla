------------------------------- MODULE BumpCas -------------------------------
(* The algorithm of the shared bump allocator, one action per atomic step: an  *)
(* unconditional allocation guesses level 0 and retries from the level that a  *)
(* failed compare-exchange observed.  It has to refine the specification in    *)
(* which every call is a single step, and every call has to come to an end.    *)
EXTENDS Bump

CONSTANTS Threads,    \* e.g. {1, 2, 3}
          Progs       \* the sequences of requests a thread may execute

VARIABLES prog,       \* thread -> remaining requests
          pc,         \* thread -> "idle" | "try"
          guess,      \* thread -> the level it assumes
          mine,       \* thread -> the level it observed last
          out         \* thread -> outcomes so far
cvars == <<N, base, level, prog, pc, guess, mine, out, blocks>>
allvars == <<cvars, seen, pend, obs>>

CInit(c) == /\ InitC(c)
            /\ prog \in [Threads -> Progs]
            /\ pc = [t \in Threads |-> "idle"]
            /\ guess = [t \in Threads |-> 0]
            /\ mine = [t \in Threads |-> 0]
            /\ out = [t \in Threads |-> <<>>]

Q(t) == Req[Head(prog[t])]
\* the call is over
Return(t, w) == /\ prog' = [prog EXCEPT ![t] = Tail(@)]
                /\ pc' = [pc EXCEPT ![t] = "idle"]
                /\ out' = [out EXCEPT ![t] = Append(@, w)]
                /\ mine' = IF w.lv = -1 THEN mine ELSE [mine EXCEPT ![t] = w.lv]
                /\ guess' = [guess EXCEPT ![t] = 0]
Begin(t) == /\ pc[t] = "idle" /\ prog[t] # <<>>
            /\ pc' = [pc EXCEPT ![t] = "try"]
            /\ guess' = [guess EXCEPT ![t] = IF Q(t).k = "at" THEN mine[t] ELSE 0]
            /\ UNCHANGED <<level, prog, mine, out, blocks>>
\* zero sized requests and level: a single load
Load(t) == /\ pc[t] = "try" /\ Q(t).s = 0
           /\ IF Q(t).k = "at" /\ level # guess[t]
              THEN Return(t, Out("mis", -1, level, level))
              ELSE Return(t, Out("ok", -1, level, level))
           /\ UNCHANGED <<level, blocks>>
\* no atomic step: does not fit behind the assumed level
Exhaust(t) == /\ pc[t] = "try" /\ Q(t).s > 0 /\ ~FitsAt(guess[t], Q(t))
              /\ Return(t, Out("exh", -1, -1, level))
              /\ UNCHANGED <<level, blocks>>
Cas(t) == /\ pc[t] = "try" /\ Q(t).s > 0 /\ FitsAt(guess[t], Q(t))
          /\ LET off == At(guess[t], Q(t)) IN
             IF level = guess[t]
             THEN /\ level' = off + Q(t).s
                  /\ blocks' = blocks \cup {<<off, Q(t).s, t, Len(prog[t])>>}
                  /\ Return(t, Out("ok", off, level', level'))
             ELSE IF Q(t).k = "at"
             THEN /\ Return(t, Out("mis", -1, level, level))
                  /\ UNCHANGED <<level, blocks>>
             ELSE /\ guess' = [guess EXCEPT ![t] = level]
                  /\ UNCHANGED <<level, blocks, prog, pc, mine, out>>
Step(t) == (Begin(t) \/ Load(t) \/ Exhaust(t) \/ Cas(t)) /\ UNCHANGED <<N, base, seen, pend, obs>>
CNext == \E t \in Threads : Step(t)

CView == cvars
Refines ==   \* each step is either invisible or one call taking effect atomically
  [][ \/ UNCHANGED <<level, out>>
      \/ \E t \in Threads :
           LET q == Req[Head(prog[t])] IN
           /\ out'[t] # out[t]
           /\ \A u \in Threads \ {t} : out'[u] = out[u]
           /\ \E w \in Outcomes(level, q, guess[t]) : level' = w.nl /\ out'[t] = Append(out[t], w) ]_cvars
CInv == /\ level \in 0..N
        /\ \A b, c \in blocks : b = c \/ b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
        /\ \A b \in blocks : b[1] >= 0 /\ b[1] + b[2] <= level
\* only a thread whose compare-exchange raced with a success retries, so all calls end
Terminates == <>(\A t \in Threads : prog[t] = <<>>)
=============================================================================
