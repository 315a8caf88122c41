------------------------------ MODULE MC_Line ------------------------------
(* Model-checking instance of the Line segmentation.  Besides exploring texts,  *)
(* a run evaluates the bimachine into tables and the class of every            *)
(* combination of property values found in the UCD, for the replay into the    *)
(* library.                                                                    *)
EXTENDS Line, Json, IOUtils, Long
CONSTANTS Alphabet, N
VARIABLE s
INSTANCE Segmentation WITH
    Classes <- BClasses, BreakRules <- BBreakRules, RuleAt <- BRuleAt,
    LInit <- BLInit, LStep <- BLStep, RInit <- BRInit, RStep <- BRStep,
    Brk <- BBrk
All == BClasses
NextLong == \E w \in Longer(s, Alphabet, N) : s' = w
SpecLong == Init /\ [][NextLong]_s
ASSUME "EMIT_OUT" \in DOMAIN IOEnv =>
    LET combos == JsonDeserialize(IOEnv.EMIT_IN)
    IN JsonSerialize(IOEnv.EMIT_OUT,
         [tables |-> Tables,
          classof |-> [k \in 1..Len(combos) |-> BClassOf(combos[k])]])
=============================================================================
