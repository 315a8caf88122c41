---------------------------- MODULE Trace_Session ---------------------------
(* Validates a recorded session of free-running threads: the calls of a thread *)
(* alternate with their returns, and every call returns what the same call     *)
(* returns as the first one of a process, whatever overlaps it or went before. *)
EXTENDS Naturals, Sequences, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)
\* In.ev: [t, k ("b" or "e"), c call, r result, s source kept]; In.fresh: result per call
VARIABLES k, cur, over, bad
Init == k = 0 /\ cur = [t \in 1..In.threads |-> 0] /\ over = 0 /\ bad = <<>>
Ok(e) == IF e.k = "b" THEN cur[e.t] = 0
         ELSE cur[e.t] = e.c /\ e.r = In.fresh[e.c] /\ e.s
Next == /\ k < Len(In.ev)
        /\ LET e == In.ev[k + 1]
           IN /\ cur' = [cur EXCEPT ![e.t] = IF e.k = "b" THEN e.c ELSE 0]
              /\ over' = IF e.k = "b" /\ \E t \in DOMAIN cur : cur[t] # 0 THEN over + 1 ELSE over
              /\ bad' = IF Ok(e) THEN bad ELSE Append(bad, k)
        /\ k' = k + 1
        /\ (k' = Len(In.ev)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', overlapping |-> over'])
Spec == Init /\ [][Next]_<<k, cur, over, bad>>
=============================================================================
