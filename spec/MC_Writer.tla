------------------------------ MODULE MC_Writer ------------------------------
(***************************************************************************)
(* The destination of a case conversion.  Characters of Sizes units are    *)
(* written one after the other into a buffer of DestLen units (100: NULL),  *)
(* then the result is terminated.  The writer remembers only its logical   *)
(* offset and the first offset it could not write to; the invariants say   *)
(* that this is enough for: full length returned, longest prefix of whole  *)
(* characters that leaves room for a NUL, NUL right after it, nothing      *)
(* written at or beyond the end.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Sizes, DestLens, N
Null == 100
VARIABLES dl, chars, off, stop, buf, ended
(* buf: unit -> <<character number, unit of it>>, "nul" or "untouched"        *)
vars == <<dl, chars, off, stop, buf, ended>>
Init == /\ dl \in DestLens /\ chars = <<>> /\ off = 0 /\ stop = -1 /\ ended = FALSE
        /\ buf = [i \in 0..(IF dl = Null THEN -1 ELSE dl - 1) |-> "untouched"]
Write(n) ==
    /\ ~ended /\ Len(chars) < N
    /\ chars' = Append(chars, n)
    /\ off' = off + n
    /\ IF dl # Null /\ off + n < dl
       THEN /\ buf' = [i \in DOMAIN buf |-> IF i \in off..(off + n - 1)
                                             THEN <<Len(chars) + 1, i - off + 1>> ELSE buf[i]]
            /\ stop' = stop
       ELSE buf' = buf /\ stop' = IF stop = -1 THEN off ELSE stop
    /\ UNCHANGED <<dl, ended>>
End == /\ ~ended /\ ended' = TRUE
       /\ buf' = IF dl = 0 \/ dl = Null THEN buf
                 ELSE LET p == IF off < dl THEN off ELSE IF stop # -1 THEN stop ELSE dl - 1
                      IN [buf EXCEPT ![p] = "nul"]
       /\ UNCHANGED <<dl, chars, off, stop>>
Next == (\E n \in Sizes : Write(n)) \/ End
Spec == Init /\ [][Next]_vars

Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
(* number of leading characters that fit *)
Fit(q, n) == LET S == {k \in 0..Len(q) : Sum(SubSeq(q, 1, k)) <= n - 1}
             IN CHOOSE k \in S : \A j \in S : j <= k
FullLength == ended => off = Sum(chars)
CleanTruncation ==
    (ended /\ dl > 0 /\ dl # Null) =>
        LET k == Fit(chars, dl)
            m == Sum(SubSeq(chars, 1, k))
        IN /\ buf[m] = "nul"
           /\ \A c \in 1..k : \A u \in 1..chars[c] :
                 buf[Sum(SubSeq(chars, 1, c - 1)) + u - 1] = <<c, u>>
           /\ \A i \in (m + 1)..(dl - 1) : buf[i] = "untouched"
=============================================================================
