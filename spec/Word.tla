--------------------------------- MODULE Word ---------------------------------
(* UAX #29 (Unicode 15.0) word boundaries, WB1-WB999.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

WClasses == {"Other", "CR", "LF", "Newline", "Extend", "ZWJ", "Format", "RI",
             "Katakana", "Hebrew_Letter", "ALetter", "Single_Quote",
             "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric",
             "ExtendNumLet", "WSegSpace", "ExtPict", "ALetterEP"}

WClassOf(p) ==
    IF p.extpict = 1
    THEN (IF p.wb = "Other" THEN "ExtPict"
          ELSE IF p.wb = "ALetter" THEN "ALetterEP" ELSE "UNEXPECTED")
    ELSE IF p.wb = "Regional_Indicator" THEN "RI" ELSE p.wb

WNL   == {"CR", "LF", "Newline"}
WIgn  == {"Extend", "Format", "ZWJ"}
AHL   == {"ALetter", "ALetterEP", "Hebrew_Letter"}
MNLQ  == {"MidNumLet", "Single_Quote"}
PictW == {"ExtPict", "ALetterEP"}

(* WB4: position k is absorbed into the character before it                  *)
WAbsorbed(w, k) == k > 1 /\ w[k] \in WIgn /\ w[k - 1] \notin WNL

(* the text before boundary i with absorbed characters removed               *)
RECURSIVE WKept(_, _)
WKept(w, k) == IF k = 0 THEN <<>>
               ELSE IF WAbsorbed(w, k) THEN WKept(w, k - 1)
               ELSE Append(WKept(w, k - 1), w[k])

(* first class at or after k that is not ignored, "eot" if there is none      *)
RECURSIVE WAhead(_, _)
WAhead(w, k) == IF k > Len(w) THEN "eot"
                ELSE IF w[k] \in WIgn THEN WAhead(w, k + 1) ELSE w[k]

WRIRun(t) == LET RECURSIVE F(_)
                 F(k) == IF k = 0 THEN 0 ELSE IF t[k] # "RI" THEN 0 ELSE 1 + F(k - 1)
             IN F(Len(t))

WRuleAt(w, i) ==
    LET a  == w[i]
        b  == w[i + 1]
        t  == WKept(w, i)
        p1 == t[Len(t)]
        p2 == IF Len(t) > 1 THEN t[Len(t) - 1] ELSE "sot"
        n2 == WAhead(w, i + 2)
    IN  IF a = "CR" /\ b = "LF" THEN "WB3"
        ELSE IF a \in WNL THEN "WB3a"
        ELSE IF b \in WNL THEN "WB3b"
        ELSE IF a = "ZWJ" /\ b \in PictW THEN "WB3c"
        ELSE IF a = "WSegSpace" /\ b = "WSegSpace" THEN "WB3d"
        ELSE IF b \in WIgn THEN "WB4"
        ELSE IF p1 \in AHL /\ b \in AHL THEN "WB5"
        ELSE IF p1 \in AHL /\ b \in (MNLQ \cup {"MidLetter"}) /\ n2 \in AHL THEN "WB6"
        ELSE IF p2 \in AHL /\ p1 \in (MNLQ \cup {"MidLetter"}) /\ b \in AHL THEN "WB7"
        ELSE IF p1 = "Hebrew_Letter" /\ b = "Single_Quote" THEN "WB7a"
        ELSE IF p1 = "Hebrew_Letter" /\ b = "Double_Quote" /\ n2 = "Hebrew_Letter" THEN "WB7b"
        ELSE IF p2 = "Hebrew_Letter" /\ p1 = "Double_Quote" /\ b = "Hebrew_Letter" THEN "WB7c"
        ELSE IF p1 = "Numeric" /\ b = "Numeric" THEN "WB8"
        ELSE IF p1 \in AHL /\ b = "Numeric" THEN "WB9"
        ELSE IF p1 = "Numeric" /\ b \in AHL THEN "WB10"
        ELSE IF p2 = "Numeric" /\ p1 \in (MNLQ \cup {"MidNum"}) /\ b = "Numeric" THEN "WB11"
        ELSE IF p1 = "Numeric" /\ b \in (MNLQ \cup {"MidNum"}) /\ n2 = "Numeric" THEN "WB12"
        ELSE IF p1 = "Katakana" /\ b = "Katakana" THEN "WB13"
        ELSE IF p1 \in (AHL \cup {"Numeric", "Katakana", "ExtendNumLet"}) /\ b = "ExtendNumLet" THEN "WB13a"
        ELSE IF p1 = "ExtendNumLet" /\ b \in (AHL \cup {"Numeric", "Katakana"}) THEN "WB13b"
        ELSE IF b = "RI" /\ WRIRun(t) % 2 = 1 THEN "WB15_16"
        ELSE "WB999"
WRules == {"WB3", "WB3a", "WB3b", "WB3c", "WB3d", "WB4", "WB5", "WB6", "WB7",
           "WB7a", "WB7b", "WB7c", "WB8", "WB9", "WB10", "WB11", "WB12", "WB13",
           "WB13a", "WB13b", "WB15_16", "WB999"}
WBreakRules == {"WB3a", "WB3b", "WB999"}

(* Left automaton:                                                            *)
(*  <<last kept class, last raw class if absorbed ("" otherwise; Extend and  *)
(*    Format count alike), what stood before a mid-word character, RI parity>>*)
WKind(c) == IF c = "Hebrew_Letter" THEN "HL" ELSE IF c \in AHL THEN "AL"
            ELSE IF c = "Numeric" THEN "NU" ELSE "-"
WMid == MNLQ \cup {"MidLetter", "MidNum", "Double_Quote"}
WLInit == <<"sot", "", "-", 0>>
WLStep(l, c) ==
    IF c \in WIgn /\ l[1] # "sot" /\ ~(l[1] \in WNL /\ l[2] = "")
    THEN <<l[1], IF c = "ZWJ" THEN "ZWJ" ELSE "Ign", l[3], l[4]>>
    ELSE << c, "", IF c \in WMid THEN WKind(l[1]) ELSE "-",
            IF c = "RI" THEN 1 - (IF l[1] = "RI" THEN l[4] ELSE 0) ELSE 0 >>
(* Right automaton: <<next class, kind of the first non-ignored one after it>> *)
WRInit == <<"eot", "-">>
WRStep(r, c) == <<c, IF r[1] \in WIgn THEN r[2] ELSE WKind(r[1])>>

WBrk(l, r) ==
    LET p1 == l[1]
        a  == IF l[2] = "" THEN p1 ELSE l[2]
        p2 == l[3]
        b  == r[1]
        n2 == r[2]
        ah2 == p2 \in {"HL", "AL"}
    IN  IF a = "CR" /\ b = "LF" THEN FALSE
        ELSE IF a \in WNL \/ b \in WNL THEN TRUE
        ELSE IF a = "ZWJ" /\ b \in PictW THEN FALSE
        ELSE IF a = "WSegSpace" /\ b = "WSegSpace" THEN FALSE
        ELSE IF b \in WIgn THEN FALSE
        ELSE IF b \in AHL
             THEN ~( p1 \in AHL \/ p1 \in {"Numeric", "ExtendNumLet"}
                     \/ (p1 \in (MNLQ \cup {"MidLetter"}) /\ ah2)
                     \/ (p1 = "Double_Quote" /\ p2 = "HL" /\ b = "Hebrew_Letter"))
        ELSE IF b = "Numeric"
             THEN ~( p1 \in AHL \/ p1 \in {"Numeric", "ExtendNumLet"}
                     \/ (p1 \in (MNLQ \cup {"MidNum"}) /\ p2 = "NU"))
        ELSE IF b = "Katakana" THEN p1 \notin {"Katakana", "ExtendNumLet"}
        ELSE IF b = "ExtendNumLet"
             THEN p1 \notin (AHL \cup {"Numeric", "Katakana", "ExtendNumLet"})
        ELSE IF b = "RI" THEN l[4] = 0
        ELSE IF b \in WMid
             THEN ~( (p1 \in AHL /\ b \in (MNLQ \cup {"MidLetter"}) /\ n2 \in {"HL", "AL"})
                     \/ (p1 = "Hebrew_Letter" /\ b = "Single_Quote")
                     \/ (p1 = "Hebrew_Letter" /\ b = "Double_Quote" /\ n2 = "HL")
                     \/ (p1 = "Numeric" /\ b \in (MNLQ \cup {"MidNum"}) /\ n2 = "NU"))
        ELSE TRUE
=============================================================================
