----------------------------- MODULE MC_BidiSep -----------------------------
(* The contexts in which the driver places every codepoint separate the bidi   *)
(* classes: for every two classes the specification gives different paragraph  *)
(* lengths, directions or line levels in one of them.  So a codepoint that     *)
(* behaves as its class does in all contexts has no other class.               *)
EXTENDS Bidi, Json, IOUtils
Ctx == JsonDeserialize(IOEnv.CTX)           \* [c: class names, h: index of the hole]
VARIABLE p
Result(x, k) ==
    LET q  == [Ctx[k].c EXCEPT ![Ctx[k].h] = x]
        n  == P1(q)
        c  == SubSeq(q, 1, n)
        pl == ParaLevel(c, "NEUTRAL")
    IN <<n, pl, LineLevels(c, Resolve(c, [i \in 1..n |-> 0], pl), pl, 1, n)>>
Sig(x) == [k \in 1..Len(Ctx) |-> Result(x, k)]
\* one state per class
Init == p \in BidiClasses
Spec == Init /\ [][UNCHANGED p]_p
Separates == \A x \in BidiClasses \ {p} : \E k \in 1..Len(Ctx) : Result(x, k) # Result(p, k)
=============================================================================
