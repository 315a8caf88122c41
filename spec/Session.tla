------------------------------ MODULE Session -------------------------------
(* What several threads observe of the library over time.                      *)
(*                                                                             *)
(* A caller owns buffers; a call of function f reads the buffer it was given   *)
(* symbol by symbol, other threads run between any two of its steps, and then  *)
(* it returns.  The result is modelled freely: it is the function together     *)
(* with everything the call took in.  Any real function is an image of this    *)
(* one, so "the result is <<f, contents of the buffer when the call began>>"   *)
(* says that the result is a function of the arguments and of nothing else.    *)
(*                                                                             *)
(* Leak selects a flaw; with "none" the library has no state of its own.  The  *)
(* others are there to show that the invariants, and the behaviours that are   *)
(* replayed into the library, notice such flaws:                               *)
(*   memo     the result for an address is remembered                          *)
(*   scratch  calls collect what they read in one shared place                 *)
(*   source   a call changes its source and restores it before it returns      *)
(*   once     the first call leaves something behind that later calls take in  *)
(*   classes  what was read last is remembered in two separately written words *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Fns, Texts, Calls, Leak
\* Calls: number of calls of each thread (a sequence; threads are its domain)
Threads == DOMAIN Calls
VARIABLES buf,      \* per thread: contents of its buffer
          want,     \* per thread: contents at the start of the current call
          at,       \* per thread: "idle", "in", "done"
          fn, pos, acc, \* of the current call of a thread
          half, miss, \* progress of a lookup, only used by the flaw "classes"
          left,     \* per thread: calls still to be made
          lib,      \* state of the library
          bad,      \* calls that returned something else than they should
          h         \* history: the events so far
vars == <<buf, want, at, fn, pos, acc, half, miss, left, lib, bad, h>>
Lib0 == [memo |-> [t |-> 0, n |-> 0, r |-> <<>>], scratch |-> <<>>, used |-> FALSE, key |-> "", val |-> ""]
Init == /\ buf = [t \in Threads |-> <<>>] /\ want = buf /\ acc = buf
        /\ at = [t \in Threads |-> "idle"] /\ fn = [t \in Threads |-> ""]
        /\ pos = [t \in Threads |-> 0] /\ left = Calls
        /\ half = [t \in Threads |-> FALSE] /\ miss = half
        /\ lib = Lib0 /\ bad = {} /\ h = <<>>

\* the caller fills its buffer and calls the library
Begin(t) == \E f \in Fns, x \in Texts :
    /\ at[t] = "idle" /\ left[t] > 0
    /\ buf' = [buf EXCEPT ![t] = IF Leak = "source" THEN [x EXCEPT ![Len(x)] = "nul"] ELSE x]
    /\ want' = [want EXCEPT ![t] = x]
    /\ fn' = [fn EXCEPT ![t] = f]
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ at' = [at EXCEPT ![t] = "in"]
    /\ pos' = [pos EXCEPT ![t] = IF Leak = "memo" /\ lib.memo.t = t /\ lib.memo.n = <<f, Len(x)>> THEN Len(x) ELSE 0]
    /\ acc' = [acc EXCEPT ![t] = IF Leak = "memo" /\ lib.memo.t = t /\ lib.memo.n = <<f, Len(x)>> THEN lib.memo.r
                                 ELSE IF Leak = "once" /\ lib.used THEN <<"left over">> ELSE <<>>]
    /\ lib' = IF Leak = "scratch" THEN [lib EXCEPT !.scratch = <<>>] ELSE lib
    /\ h' = Append(h, <<t, "b", f, x>>)
    /\ UNCHANGED <<bad, half, miss>>
\* one symbol is read
Read(t) ==
    /\ at[t] = "in" /\ pos[t] < Len(want[t])
    /\ LET x == want[t][pos[t] + 1]
           look == Leak = "classes" /\ ~half[t]     \* first half of a lookup with the flaw "classes"
           got == IF Leak = "classes" THEN IF miss[t] THEN x ELSE lib.val ELSE x
       IN /\ half' = [half EXCEPT ![t] = look]
          /\ miss' = [miss EXCEPT ![t] = IF look THEN lib.key # x ELSE FALSE]
          /\ acc' = IF look THEN acc ELSE [acc EXCEPT ![t] = Append(@, got)]
          /\ pos' = IF look THEN pos ELSE [pos EXCEPT ![t] = @ + 1]
          /\ lib' = CASE Leak = "scratch" -> [lib EXCEPT !.scratch = Append(@, x)]
                      [] look -> [lib EXCEPT !.key = x]
                      [] Leak = "classes" /\ miss[t] -> [lib EXCEPT !.val = x]
                      [] OTHER -> lib
    /\ h' = Append(h, <<t, "r">>)
    /\ UNCHANGED <<buf, want, at, fn, left, bad>>
Return(t) ==
    /\ at[t] = "in" /\ pos[t] = Len(want[t])
    /\ LET res == IF Leak = "scratch" THEN lib.scratch ELSE acc[t]
       IN bad' = IF res = want[t] THEN bad ELSE bad \cup {<<t, left[t]>>}
    /\ at' = [at EXCEPT ![t] = "idle"]
    /\ buf' = [buf EXCEPT ![t] = want[t]]
    /\ lib' = CASE Leak = "memo" -> [lib EXCEPT !.memo = [t |-> t, n |-> <<fn[t], Len(want[t])>>, r |-> acc[t]]]
                [] Leak = "once" -> [lib EXCEPT !.used = TRUE]
                [] OTHER -> lib
    /\ h' = Append(h, <<t, "e">>)
    /\ UNCHANGED <<want, fn, pos, acc, left, half, miss>>
Next == \E t \in Threads : Begin(t) \/ Read(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

\* every call returns what its arguments say
Pure == bad = {}
\* a source holds what the caller put there, at every moment
SourceKept == \A t \in Threads : at[t] = "in" => buf[t] = want[t]
\* no call has a lasting effect on the library
NoState == lib = Lib0
Complete == \A t \in Threads : left[t] = 0 /\ at[t] = "idle"
=============================================================================
