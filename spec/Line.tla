--------------------------------- MODULE Line ---------------------------------
(* UAX #14 (Unicode 15.0) line break opportunities, LB1-LB31, with the number *)
(* tailoring of example 7 (section 8.2), as used by LineBreakTest.txt.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

BClasses == {"AL", "B2", "BA", "BB", "BK", "CB", "CL", "CM", "CP", "CP30", "CR",
             "EB", "EM", "EX", "GL", "H2", "H3", "HL", "HY", "ID", "IDCN", "IN",
             "IS", "JL", "JT", "JV", "LF", "NL", "NS", "NU", "OP", "OP30", "PO",
             "PR", "QU", "RI", "SP", "SY", "WJ", "ZW", "ZWJ"}

(* LB1 and the refinements needed by LB30 and LB30b:                           *)
(*  OP30/CP30: not East_Asian_Width F, W or H; IDCN: unassigned pictographs     *)
BClassOf(p) ==
    IF p.lb \in {"AI", "SG", "XX"} THEN "AL"
    ELSE IF p.lb = "SA" THEN (IF p.gc \in {"Mn", "Mc"} THEN "CM" ELSE "AL")
    ELSE IF p.lb = "CJ" THEN "NS"
    ELSE IF p.lb \in {"OP", "CP"} /\ p.eaw \notin {"F", "W", "H"}
         THEN (IF p.lb = "OP" THEN "OP30" ELSE "CP30")
    ELSE IF p.extpict = 1 /\ p.gc = "Cn" THEN (IF p.lb = "ID" THEN "IDCN" ELSE "UNEXPECTED")
    ELSE p.lb

Hard  == {"BK", "CR", "LF", "NL"}
NoCM  == Hard \cup {"SP", "ZW"}
Marks == {"CM", "ZWJ"}
OPs   == {"OP", "OP30"}
CPs   == {"CP", "CP30"}
IDs   == {"ID", "IDCN"}
ALs   == {"AL", "HL"}
Hang  == {"JL", "JV", "JT", "H2", "H3"}

(* LB9: position k is absorbed into the character before it                     *)
BAbsorbed(w, k) == k > 1 /\ w[k] \in Marks /\ w[k - 1] \notin NoCM
(* LB10: any other mark is alphabetic                                           *)
BEff(c) == IF c \in Marks THEN "AL" ELSE c
RECURSIVE BKept(_, _)
BKept(w, k) == IF k = 0 THEN <<>>
               ELSE IF BAbsorbed(w, k) THEN BKept(w, k - 1)
               ELSE Append(BKept(w, k - 1), BEff(w[k]))
RECURSIVE BAhead(_, _)
BAhead(w, k) == IF k > Len(w) THEN "eot"
                ELSE IF BAbsorbed(w, k) THEN BAhead(w, k + 1) ELSE BEff(w[k])

(* t ends with  head SP*                                                         *)
EndsSp(t, head) == \E k \in 1..Len(t) :
                      t[k] \in head /\ \A x \in (k + 1)..Len(t) : t[x] = "SP"
(* t ends with  NU (NU | SY | IS)*                                               *)
EndsNum(t) == \E k \in 1..Len(t) :
                 t[k] = "NU" /\ \A x \in (k + 1)..Len(t) : t[x] \in {"NU", "SY", "IS"}
EndsNumCl(t) == \/ EndsNum(t)
                \/ (Len(t) > 1 /\ t[Len(t)] \in ({"CL"} \cup CPs)
                    /\ EndsNum(SubSeq(t, 1, Len(t) - 1)))
BRIRun(t) == LET RECURSIVE F(_)
                 F(k) == IF k = 0 THEN 0 ELSE IF t[k] # "RI" THEN 0 ELSE 1 + F(k - 1)
             IN F(Len(t))

BRuleAt(w, i) ==
    LET a  == w[i]
        r  == w[i + 1]
        t  == BKept(w, i)
        p  == t[Len(t)]
        p2 == IF Len(t) > 1 THEN t[Len(t) - 1] ELSE "sot"
        b  == BEff(r)
        n2 == BAhead(w, i + 2)
    IN  IF a = "BK" THEN "LB4"
        ELSE IF a = "CR" /\ r = "LF" THEN "LB5x"
        ELSE IF a \in {"CR", "LF", "NL"} THEN "LB5"
        ELSE IF r \in Hard THEN "LB6"
        ELSE IF r \in {"SP", "ZW"} THEN "LB7"
        ELSE IF EndsSp(SubSeq(w, 1, i), {"ZW"}) THEN "LB8"
        ELSE IF a = "ZWJ" THEN "LB8a"
        ELSE IF BAbsorbed(w, i + 1) THEN "LB9"
        ELSE IF p = "WJ" \/ b = "WJ" THEN "LB11"
        ELSE IF p = "GL" THEN "LB12"
        ELSE IF p \notin {"SP", "BA", "HY"} /\ b = "GL" THEN "LB12a"
        ELSE IF b = "EX" \/ (p # "NU" /\ b \in ({"CL", "IS", "SY"} \cup CPs)) THEN "LB13"
        ELSE IF EndsSp(t, OPs) THEN "LB14"
        ELSE IF EndsSp(t, {"QU"}) /\ b \in OPs THEN "LB15"
        ELSE IF EndsSp(t, {"CL"} \cup CPs) /\ b = "NS" THEN "LB16"
        ELSE IF EndsSp(t, {"B2"}) /\ b = "B2" THEN "LB17"
        ELSE IF p = "SP" THEN "LB18"
        ELSE IF p = "QU" \/ b = "QU" THEN "LB19"
        ELSE IF p = "CB" \/ b = "CB" THEN "LB20"
        ELSE IF b \in {"BA", "HY", "NS"} \/ p = "BB" THEN "LB21"
        ELSE IF p2 = "HL" /\ p \in {"HY", "BA"} THEN "LB21a"
        ELSE IF p = "SY" /\ b = "HL" THEN "LB21b"
        ELSE IF b = "IN" THEN "LB22"
        ELSE IF (p \in ALs /\ b = "NU") \/ (p = "NU" /\ b \in ALs) THEN "LB23"
        ELSE IF (p = "PR" /\ b \in (IDs \cup {"EB", "EM"}))
                \/ (p \in (IDs \cup {"EB", "EM"}) /\ b = "PO") THEN "LB23a"
        ELSE IF (p \in {"PR", "PO"} /\ b \in ALs) \/ (p \in ALs /\ b \in {"PR", "PO"}) THEN "LB24"
        ELSE IF \/ p \in {"PR", "PO"} /\ (b = "NU" \/ (b \in (OPs \cup {"HY"}) /\ n2 = "NU"))
                \/ p \in (OPs \cup {"HY"}) /\ b = "NU"
                \/ p = "NU" /\ b \in {"NU", "SY", "IS"}
                \/ EndsNum(t) /\ b \in ({"NU", "SY", "IS", "CL"} \cup CPs)
                \/ EndsNumCl(t) /\ b \in {"PO", "PR"} THEN "LB25"
        ELSE IF \/ p = "JL" /\ b \in {"JL", "JV", "H2", "H3"}
                \/ p \in {"JV", "H2"} /\ b \in {"JV", "JT"}
                \/ p \in {"JT", "H3"} /\ b = "JT" THEN "LB26"
        ELSE IF (p \in Hang /\ b = "PO") \/ (p = "PR" /\ b \in Hang) THEN "LB27"
        ELSE IF p \in ALs /\ b \in ALs THEN "LB28"
        ELSE IF p = "IS" /\ b \in ALs THEN "LB29"
        ELSE IF (p \in (ALs \cup {"NU"}) /\ b = "OP30")
                \/ (p = "CP30" /\ b \in (ALs \cup {"NU"})) THEN "LB30"
        ELSE IF b = "RI" /\ BRIRun(t) % 2 = 1 THEN "LB30a"
        ELSE IF p \in {"EB", "IDCN"} /\ b = "EM" THEN "LB30b"
        ELSE "LB31"
BRules == {"LB4", "LB5x", "LB5", "LB6", "LB7", "LB8", "LB8a", "LB9", "LB11", "LB12",
           "LB12a", "LB13", "LB14", "LB15", "LB16", "LB17", "LB18", "LB19", "LB20",
           "LB21", "LB21a", "LB21b", "LB22", "LB23", "LB23a", "LB24", "LB25", "LB26",
           "LB27", "LB28", "LB29", "LB30", "LB30a", "LB30b", "LB31"}
BBreakRules == {"LB4", "LB5", "LB8", "LB18", "LB20", "LB31"}

(* Left automaton: <<last kept class, last raw is absorbed ZWJ or CM,           *)
(*   context: base of a space run / "HL" before HY, BA, RI parity, number phase>> *)
BLInit == <<"sot", "", "-", 0, 0>>
BCtxBase(c) == IF c \in OPs THEN "OP" ELSE IF c = "QU" THEN "QU"
               ELSE IF c \in ({"CL"} \cup CPs) THEN "CL" ELSE IF c = "B2" THEN "B2"
               ELSE IF c = "ZW" THEN "ZW" ELSE "-"
BLStep(l, c) ==
    IF c \in Marks /\ l[1] # "sot" /\ l[1] \notin NoCM
    THEN <<l[1], c, l[3], l[4], l[5]>>
    ELSE LET e == BEff(c) IN
         << e, IF c \in Marks THEN c ELSE "",
            IF e = "SP" THEN (IF l[1] = "SP" THEN l[3] ELSE BCtxBase(l[1]))
            ELSE IF e \in {"HY", "BA"} /\ l[1] = "HL" THEN "HL" ELSE "-",
            IF e = "RI" THEN 1 - (IF l[1] = "RI" THEN l[4] ELSE 0) ELSE 0,
            IF e = "NU" THEN 1
            ELSE IF e \in {"SY", "IS"} /\ l[5] = 1 THEN 1
            ELSE IF e \in ({"CL"} \cup CPs) /\ l[5] = 1 THEN 2 ELSE 0 >>
(* Right automaton: <<next class, NU follows it after absorbed marks>>           *)
BRInit == <<"eot", FALSE>>
BRStep(r, c) == <<c, IF r[1] \in Marks THEN r[2] ELSE r[1] = "NU">>

BBrk(l, rr) ==
    LET p == l[1]
        r == rr[1]
        base == IF p = "SP" THEN l[3] ELSE BCtxBase(p)
        b == BEff(r)
    IN  IF p = "BK" THEN TRUE
        ELSE IF p = "CR" /\ r = "LF" THEN FALSE
        ELSE IF p \in {"CR", "LF", "NL"} THEN TRUE
        ELSE IF r \in Hard \cup {"SP", "ZW"} THEN FALSE
        ELSE IF base = "ZW" THEN TRUE
        ELSE IF l[2] = "ZWJ" THEN FALSE
        ELSE IF r \in Marks /\ p # "SP" THEN FALSE
        ELSE IF p = "WJ" \/ b = "WJ" \/ p = "GL" THEN FALSE
        ELSE IF b = "GL" /\ p \notin {"SP", "BA", "HY"} THEN FALSE
        ELSE IF b \in ({"EX", "CL", "IS", "SY"} \cup CPs) THEN FALSE
        ELSE IF base = "OP" THEN FALSE
        ELSE IF base = "QU" /\ b \in OPs THEN FALSE
        ELSE IF base = "CL" /\ b = "NS" THEN FALSE
        ELSE IF base = "B2" /\ b = "B2" THEN FALSE
        ELSE IF p = "SP" THEN TRUE
        ELSE IF p = "QU" \/ b = "QU" THEN FALSE
        ELSE IF p = "CB" \/ b = "CB" THEN TRUE
        ELSE IF b \in {"BA", "HY", "NS", "IN"} \/ p = "BB" THEN
                \* LB22 sits below LB21a/b, which also forbid breaks
                FALSE
        ELSE IF p \in {"HY", "BA"} /\ l[3] = "HL" THEN FALSE
        ELSE IF p = "SY" /\ b = "HL" THEN FALSE
        ELSE IF b = "NU" THEN ~( p \in ALs \cup {"PR", "PO", "HY", "NU", "CP30"}
                                 \/ l[5] = 1 )
        ELSE IF b \in ALs THEN ~( p \in ALs \cup {"NU", "PR", "PO", "IS", "CP30"} )
        ELSE IF b = "PO" THEN ~( p \in IDs \cup ALs \cup Hang \cup {"EB", "EM"} \/ l[5] \in {1, 2} )
        ELSE IF b = "PR" THEN ~( p \in ALs \/ l[5] \in {1, 2} )
        ELSE IF b \in OPs THEN ~( (p \in {"PR", "PO"} /\ rr[2])
                                  \/ (b = "OP30" /\ p \in ALs \cup {"NU"}) )
        ELSE IF b \in IDs \cup {"EB"} THEN p # "PR"
        ELSE IF b = "EM" THEN p \notin {"PR", "EB", "IDCN"}
        ELSE IF b \in Hang THEN
             ~( p = "PR"
                \/ (p = "JL" /\ b \in {"JL", "JV", "H2", "H3"})
                \/ (p \in {"JV", "H2"} /\ b \in {"JV", "JT"})
                \/ (p \in {"JT", "H3"} /\ b = "JT") )
        ELSE IF b = "RI" THEN l[4] = 0
        ELSE TRUE
=============================================================================
