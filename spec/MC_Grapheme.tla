------------------------------ MODULE MC_Grapheme ------------------------------
(* Model-checking instance of the Grapheme segmentation.  Besides exploring texts,  *)
(* a run evaluates the bimachine into tables and the class of every            *)
(* combination of property values found in the UCD, for the replay into the    *)
(* library.                                                                    *)
EXTENDS Grapheme, Json, IOUtils, Long
CONSTANTS Alphabet, N
VARIABLE s
INSTANCE Segmentation WITH
    Classes <- GClasses, BreakRules <- GBreakRules, RuleAt <- GRuleAt,
    LInit <- GLInit, LStep <- GLStep, RInit <- GRInit, RStep <- GRStep,
    Brk <- GBrk
All == GClasses
NextLong == \E w \in Longer(s, Alphabet, N) : s' = w
SpecLong == Init /\ [][NextLong]_s
ASSUME "EMIT_OUT" \in DOMAIN IOEnv =>
    LET combos == JsonDeserialize(IOEnv.EMIT_IN)
    IN JsonSerialize(IOEnv.EMIT_OUT,
         [tables |-> Tables,
          classof |-> [k \in 1..Len(combos) |-> GClassOf(combos[k])]])
=============================================================================
