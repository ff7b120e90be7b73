-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* The library keeps nothing between calls.  A call is known by what it    *)
(* depends on: the operation, its arguments and the reading of the clock.  *)
(* Threads begin and end calls in any order; F is the function the library *)
(* is, chosen once and for all.  A result is delivered when a call ends.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Calls, Results, MaxCalls
VARIABLES F,        \* what the library computes
          open,     \* the call a thread is in, or 0
          known,    \* results seen so far, per call: a set
          done      \* calls ended

mvars == <<F, open, known, done>>
MemoInit == /\ F \in [Calls -> Results]
            /\ open = [t \in Threads |-> 0]
            /\ known = [c \in Calls |-> {}]
            /\ done = 0
Begin(t, c) == open[t] = 0 /\ open' = [open EXCEPT ![t] = c] /\ UNCHANGED <<F, known, done>>
End(t) == /\ open[t] # 0 /\ done < MaxCalls
          /\ known' = [known EXCEPT ![open[t]] = @ \cup {F[open[t]]}]
          /\ open' = [open EXCEPT ![t] = 0]
          /\ done' = done + 1
          /\ UNCHANGED F
MemoNext == \E t \in Threads : End(t) \/ \E c \in Calls : Begin(t, c)
MemoSpec == MemoInit /\ [][MemoNext]_mvars

(* C20: a call has one result, whatever came before or runs beside it *)
OneResult == \A c \in Calls : Cardinality(known[c]) <= 1
=============================================================================
