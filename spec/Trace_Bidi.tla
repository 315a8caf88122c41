----------------------------- MODULE Trace_Bidi -----------------------------
(* Validates what the bidirectional functions of the library were recorded to  *)
(* do.  A record holds a text, the direction asked for, the reported length    *)
(* and direction of its first paragraph and, for some lines of the paragraph,  *)
(* the line levels and the reordered line.                                     *)
EXTENDS Bidi, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, bad, seen
Chars == In.chars                   \* [bc, br, cp, mi] of every character that occurs
Dir(d) == <<"NEUTRAL", "LTR", "RTL">>[d + 1]

\* what the record should say; mirrored output where L4 asks for it
LineOf(c, r, pl, cps, l) ==
    LET ll == LineLevels(c, r, pl, l.f, l.t)
        v  == Reorder(ll)
        at(j) == l.f + v[j] - 1
    IN [lev |-> ll,
        out |-> [j \in 1..Len(v) |-> IF ll[v[j]] % 2 = 1 THEN cps[at(j)].mi ELSE cps[at(j)].cp],
        \* the same with mirroring at every level (known deviation of the library)
        all |-> [j \in 1..Len(v) |-> cps[at(j)].mi]]
Verdict(rec) ==
    LET cps0 == [i \in 1..Len(rec.t) |-> Chars[rec.t[i]]]
        n    == P1([i \in 1..Len(cps0) |-> cps0[i].bc])
        cps  == SubSeq(cps0, 1, n)
        c    == [i \in 1..n |-> cps[i].bc]
        b    == [i \in 1..n |-> cps[i].br]
        pl   == ParaLevel(c, Dir(rec.d))
        r    == Resolve(c, b, pl)
        ls   == [i \in 1..Len(rec.lines) |-> LineOf(c, r, pl, cps, rec.lines[i])]
        levok == \A i \in 1..Len(ls) : ls[i].lev = rec.lines[i].lev
        outok == \A i \in 1..Len(ls) : rec.lines[i].out = ls[i].out
        allok == \A i \in 1..Len(ls) : rec.lines[i].out \in {ls[i].out, ls[i].all}
    IN [ok |-> IF rec.len # n THEN "length" ELSE IF rec.pl # pl THEN "direction"
               ELSE IF ~levok THEN "levels"
               ELSE IF ~outok THEN IF allok THEN "mirror" ELSE "order" ELSE "",
        len |-> n, pl |-> pl, lines |-> ls]
Kinds == {"", "length", "direction", "levels", "mirror", "order"}
Init == k = 0 /\ bad = <<>> /\ seen = [x \in Kinds |-> 0]
Next == /\ k < Len(In.recs)
        /\ LET v == Verdict(In.recs[k + 1])
           IN /\ bad' = IF v.ok = "" THEN bad ELSE Append(bad, [rec |-> k, want |-> v])
              /\ seen' = [seen EXCEPT ![v.ok] = @ + 1]
        /\ k' = k + 1
        /\ (k' = Len(In.recs)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', seen |-> seen'])
Spec == Init /\ [][Next]_<<k, bad, seen>>
=============================================================================
