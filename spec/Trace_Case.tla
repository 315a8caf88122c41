----------------------------- MODULE Trace_Case -----------------------------
(* Validates conversions and detections recorded from the library.           *)
EXTENDS Case, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)      \* props, recs
VARIABLES k, bad, fired
Text(r) == [i \in 1..Len(r.t) |-> In.props[r.t[i]]]
(* r.u, r.l, r.c: conversions; r.mu, r.ml, r.mt: <<answer, matching length>>  *)
OK(r) == LET w == Text(r)
             D(j, m) == (m[1] = 1) = IsCase(w, j) /\ m[2] = Matching(w, j)
         IN /\ r.u = Convert(w, 1) /\ r.l = Convert(w, 2) /\ r.c = Convert(w, 3)
            /\ D(1, r.mu) /\ D(2, r.ml) /\ D(3, r.mt)
Events(r) == LET w == Text(r) IN
    {"conversion"} \cup (IF \E i \in 1..Len(w) : IsFinalSigma(w, i) THEN {"final sigma"} ELSE {})
    \cup (IF \E i \in 1..Len(w) : w[i].special # <<>> THEN {"expansion"} ELSE {})
    \cup (IF Cardinality(WordEnds(w)) > 1 THEN {"several words"} ELSE {})
    \cup (IF \E i \in 1..Len(w) : w[i].cp = Sigma /\ ~IsFinalSigma(w, i) THEN {"medial sigma"} ELSE {})
Init == k = 0 /\ bad = <<>> /\ fired = [x \in {"conversion", "final sigma", "medial sigma", "expansion", "several words"} |-> 0]
Next == /\ k < Len(In.recs)
        /\ LET r == In.recs[k + 1]
           IN /\ bad' = IF OK(r) THEN bad
                        ELSE Append(bad, [rec |-> k, u |-> Convert(Text(r), 1), l |-> Convert(Text(r), 2), c |-> Convert(Text(r), 3),
                                          mu |-> Matching(Text(r), 1), ml |-> Matching(Text(r), 2), mt |-> Matching(Text(r), 3)])
              /\ fired' = [x \in DOMAIN fired |-> fired[x] + IF x \in Events(r) THEN 1 ELSE 0]
        /\ k' = k + 1
        /\ (k' = Len(In.recs)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', rules |-> fired'])
Spec == Init /\ [][Next]_<<k, bad, fired>>
=============================================================================
