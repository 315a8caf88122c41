-------------------------------- MODULE Long --------------------------------
(* Long texts drawn at random, for the invariants of the MC_* modules beyond   *)
(* the lengths that can be enumerated: one successor of every one-letter text  *)
(* per draw.  A text uses few different letters, so that the rules about       *)
(* repetitions and about what stands far away come into play.                  *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, IOUtils
Lots == atoi(IOEnv.LOTS)
Draw(A, n) == LET m   == 2 + RandomElement(0..4)
                  few == CHOOSE x \in {RandomSubset(IF m < Cardinality(A) THEN m ELSE Cardinality(A), A)} : TRUE
              IN [i \in 1..(n - RandomElement(0..(n \div 2))) |-> RandomElement(few)]
\* the next text after s
Longer(s, A, n) == IF s = <<>> THEN {<<x>> : x \in A}
                   ELSE IF Len(s) = 1 THEN {s \o Draw(A, n) : k \in 1..Lots} ELSE {}
=============================================================================
