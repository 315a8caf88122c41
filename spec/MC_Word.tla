------------------------------ MODULE MC_Word ------------------------------
(* Model-checking instance of the Word segmentation.  Besides exploring texts,  *)
(* a run evaluates the bimachine into tables and the class of every            *)
(* combination of property values found in the UCD, for the replay into the    *)
(* library.                                                                    *)
EXTENDS Word, Json, IOUtils, Long
CONSTANTS Alphabet, N
VARIABLE s
INSTANCE Segmentation WITH
    Classes <- WClasses, BreakRules <- WBreakRules, RuleAt <- WRuleAt,
    LInit <- WLInit, LStep <- WLStep, RInit <- WRInit, RStep <- WRStep,
    Brk <- WBrk
All == WClasses
NextLong == \E w \in Longer(s, Alphabet, N) : s' = w
SpecLong == Init /\ [][NextLong]_s
ASSUME "EMIT_OUT" \in DOMAIN IOEnv =>
    LET combos == JsonDeserialize(IOEnv.EMIT_IN)
    IN JsonSerialize(IOEnv.EMIT_OUT,
         [tables |-> Tables,
          classof |-> [k \in 1..Len(combos) |-> WClassOf(combos[k])]])
=============================================================================
