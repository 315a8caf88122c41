------------------------------ MODULE Trace_Word ------------------------------
(* Validates segmentations recorded from the library (or published by Unicode) *)
(* against the declarative rules of Word.tla.  The behaviour steps through the   *)
(* records; rejected records and the number of boundaries decided by each rule *)
(* are written out.                                                            *)
EXTENDS Word, Json, IOUtils, SequencesExt
In    == JsonDeserialize(IOEnv.TRACE)
Class == [k \in 1..Len(In.props) |-> WClassOf(In.props[k])]
VARIABLES k, bad, fired
Text(r) == [i \in 1..Len(r.t) |-> Class[r.t[i]]]
RulesOf(r) == LET w == Text(r) IN [i \in 1..(Len(w) - 1) |-> WRuleAt(w, i)]
Expected(r) == LET q == RulesOf(r)
               IN {i \in 1..Len(q) : q[i] \in WBreakRules} \cup {Len(r.t)}
Init == /\ k = 0 /\ bad = <<>> /\ fired = [x \in WRules |-> 0]
Next == /\ k < Len(In.recs)
        /\ LET r == In.recs[k + 1]
               q == RulesOf(r)
           IN /\ bad' = IF ToSet(r.b) = Expected(r) /\ \A i \in 2..Len(r.b) : r.b[i - 1] < r.b[i]
                        THEN bad
                        ELSE Append(bad, [rec |-> k, rules |-> q, want |-> SetToSortSeq(Expected(r), <)])
              /\ fired' = [x \in WRules |-> fired[x] + Cardinality({i \in 1..Len(q) : q[i] = x})]
        /\ k' = k + 1
        /\ (k' = Len(In.recs)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', rules |-> fired'])
Spec == Init /\ [][Next]_<<k, bad, fired>>
=============================================================================
