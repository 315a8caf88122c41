----------------------------- MODULE Trace_UTF8 -----------------------------
(* Validates decoding steps and encodings recorded from the library.         *)
EXTENDS UTF8, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, bad, kinds
(* r.b: bytes, r.s: <<ret, cp>> of repeated steps, the cut-off one included  *)
DecOK(r) == LET q == Steps(r.b)
            IN /\ Len(q) = Len(r.s)
               /\ \A i \in 1..Len(q) : q[i].ret = r.s[i][1] /\ q[i].cp = r.s[i][2]
(* r.c: value (-1 for values beyond 2^31), r.e: bytes written, r.n: returned *)
EncOK(r) == r.e = Encode(r.c) /\ r.n = Len(r.e)
Kind(r) == IF "c" \in DOMAIN r THEN "encoded"
           ELSE IF \E i \in 1..Len(r.s) : r.s[i][2] = Invalid THEN "malformed" ELSE "well-formed"
Init == k = 0 /\ bad = <<>> /\ kinds = [x \in {"encoded", "malformed", "well-formed"} |-> 0]
Next == /\ k < Len(In)
        /\ LET r == In[k + 1]
           IN /\ bad' = IF (IF "c" \in DOMAIN r THEN EncOK(r) ELSE DecOK(r)) THEN bad
                        ELSE Append(bad, [rec |-> k, want |-> IF "c" \in DOMAIN r THEN Encode(r.c) ELSE Steps(r.b)])
              /\ kinds' = [kinds EXCEPT ![Kind(r)] = @ + 1]
        /\ k' = k + 1
        /\ (k' = Len(In)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', rules |-> kinds'])
Spec == Init /\ [][Next]_<<k, bad, kinds>>
=============================================================================
