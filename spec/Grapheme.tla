------------------------------- MODULE Grapheme -------------------------------
(* UAX #29 (Unicode 15.0) extended grapheme cluster boundaries, GB1-GB999.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

GClasses == {"Other", "CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend",
             "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict"}

(* Class of a codepoint from its raw property values.                        *)
GClassOf(p) ==
    IF p.extpict = 1
    THEN (IF p.gcb = "Other" THEN "ExtPict" ELSE "UNEXPECTED")
    ELSE IF p.gcb = "Regional_Indicator" THEN "RI" ELSE p.gcb

Controls == {"Control", "CR", "LF"}

(* number of consecutive RI ending at position i *)
RECURSIVE RIRun(_, _)
RIRun(w, i) == IF i = 0 THEN 0 ELSE IF w[i] # "RI" THEN 0 ELSE 1 + RIRun(w, i - 1)

(* ExtPict Extend* ZWJ ends at position i *)
PictZWJ(w, i) ==
    /\ w[i] = "ZWJ"
    /\ \E k \in 1..(i - 1) :
          w[k] = "ExtPict" /\ \A m \in (k + 1)..(i - 1) : w[m] = "Extend"

GRuleAt(w, i) ==
    LET a == w[i]
        b == w[i + 1]
    IN  IF a = "CR" /\ b = "LF" THEN "GB3"
        ELSE IF a \in Controls THEN "GB4"
        ELSE IF b \in Controls THEN "GB5"
        ELSE IF a = "L" /\ b \in {"L", "V", "LV", "LVT"} THEN "GB6"
        ELSE IF a \in {"LV", "V"} /\ b \in {"V", "T"} THEN "GB7"
        ELSE IF a \in {"LVT", "T"} /\ b = "T" THEN "GB8"
        ELSE IF b \in {"Extend", "ZWJ"} THEN "GB9"
        ELSE IF b = "SpacingMark" THEN "GB9a"
        ELSE IF a = "Prepend" THEN "GB9b"
        ELSE IF PictZWJ(w, i) /\ b = "ExtPict" THEN "GB11"
        ELSE IF b = "RI" /\ RIRun(w, i) % 2 = 1 THEN "GB12_13"
        ELSE "GB999"
GRules == {"GB3", "GB4", "GB5", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b",
           "GB11", "GB12_13", "GB999"}
GBreakRules == {"GB4", "GB5", "GB999"}

(* Left automaton: <<last class, emoji context, RI parity>>                  *)
(*   emoji context: 0 none, 1 ExtPict Extend*, 2 ExtPict Extend* ZWJ         *)
GLInit == <<"sot", 0, 0>>
GLStep(l, c) ==
    << c,
       IF c = "ExtPict" THEN 1
       ELSE IF c = "Extend" /\ l[2] = 1 THEN 1
       ELSE IF c = "ZWJ" /\ l[2] = 1 THEN 2
       ELSE 0,
       IF c = "RI" THEN 1 - l[3] ELSE 0 >>
GRInit == "eot"
GRStep(r, c) == c
GBrk(l, r) ==
    LET a == l[1]
        b == r
    IN  IF a = "CR" /\ b = "LF" THEN FALSE
        ELSE IF a \in Controls \/ b \in Controls THEN TRUE
        ELSE IF b \in {"Extend", "ZWJ", "SpacingMark"} \/ a = "Prepend" THEN FALSE
        ELSE IF a = "L" THEN b \notin {"L", "V", "LV", "LVT"}
        ELSE IF a \in {"LV", "V"} THEN b \notin {"V", "T"}
        ELSE IF a \in {"LVT", "T"} THEN b # "T"
        ELSE IF b = "ExtPict" THEN l[2] # 2
        ELSE IF b = "RI" THEN l[3] = 0
        ELSE TRUE
=============================================================================
