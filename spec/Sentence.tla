------------------------------- MODULE Sentence -------------------------------
(* UAX #29 (Unicode 15.0) sentence boundaries, SB1-SB998.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

SClasses == {"Other", "CR", "LF", "Sep", "Extend", "Format", "Sp", "Lower",
             "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm",
             "Close"}
SClassOf(p) == p.sb

ParaSep == {"Sep", "CR", "LF"}
SIgn    == {"Extend", "Format"}
SATerm  == {"STerm", "ATerm"}

(* SB5: position k is absorbed into the character before it                   *)
SAbsorbed(w, k) == k > 1 /\ w[k] \in SIgn /\ w[k - 1] \notin ParaSep
RECURSIVE SKept(_, _)
SKept(w, k) == IF k = 0 THEN <<>>
               ELSE IF SAbsorbed(w, k) THEN SKept(w, k - 1)
               ELSE Append(SKept(w, k - 1), w[k])

(* t ends with  head Close* Sp*  (last may restrict the tail)                 *)
EndsCloseSp(t, head) ==
    \E k \in 1..Len(t) :
        /\ t[k] \in head
        /\ \E m \in k..Len(t) :
              /\ \A x \in (k + 1)..m : t[x] = "Close"
              /\ \A x \in (m + 1)..Len(t) : t[x] = "Sp"
EndsClose(t, head) ==
    \E k \in 1..Len(t) :
        t[k] \in head /\ \A x \in (k + 1)..Len(t) : t[x] = "Close"
EndsParaSep(t, head) ==
    \/ EndsCloseSp(t, head)
    \/ (Len(t) > 1 /\ t[Len(t)] \in ParaSep /\ EndsCloseSp(SubSeq(t, 1, Len(t) - 1), head))

(* ( not(OLetter | Upper | Lower | ParaSep | SATerm) )* Lower  from k          *)
SStop == {"OLetter", "Upper", "Lower"} \cup ParaSep \cup SATerm
LowerAhead(w, k) ==
    \E m \in k..Len(w) : w[m] = "Lower" /\ \A x \in k..(m - 1) : w[x] \notin SStop

SRuleAt(w, i) ==
    LET a  == w[i]
        b  == w[i + 1]
        t  == SKept(w, i)
        p1 == t[Len(t)]
        p2 == IF Len(t) > 1 THEN t[Len(t) - 1] ELSE "sot"
    IN  IF a = "CR" /\ b = "LF" THEN "SB3"
        ELSE IF a \in ParaSep THEN "SB4"
        ELSE IF b \in SIgn THEN "SB5"
        ELSE IF p1 = "ATerm" /\ b = "Numeric" THEN "SB6"
        ELSE IF p2 \in {"Upper", "Lower"} /\ p1 = "ATerm" /\ b = "Upper" THEN "SB7"
        ELSE IF EndsCloseSp(t, {"ATerm"}) /\ LowerAhead(w, i + 1) THEN "SB8"
        ELSE IF EndsCloseSp(t, SATerm) /\ b \in ({"SContinue"} \cup SATerm) THEN "SB8a"
        ELSE IF EndsClose(t, SATerm) /\ b \in ({"Close", "Sp"} \cup ParaSep) THEN "SB9"
        ELSE IF EndsCloseSp(t, SATerm) /\ b \in ({"Sp"} \cup ParaSep) THEN "SB10"
        ELSE IF EndsParaSep(t, SATerm) THEN "SB11"
        ELSE "SB998"
SRules == {"SB3", "SB4", "SB5", "SB6", "SB7", "SB8", "SB8a", "SB9", "SB10", "SB11", "SB998"}
SBreakRules == {"SB4", "SB11"}

(* Left automaton: <<last kept class of interest, absorbed?, phase, ATerm?,   *)
(*  letter before the ATerm?>>; phase 0 none, 1 SATerm, 2 + Close, 3 + Sp      *)
SKind(c) == IF c \in ParaSep \cup {"Upper", "Lower"} THEN c ELSE "x"
SLInit == <<"sot", FALSE, 0, FALSE, FALSE>>
SLStep(l, c) ==
    IF c \in SIgn /\ l[1] # "sot" /\ ~(l[1] \in ParaSep /\ ~l[2])
    THEN <<l[1], TRUE, l[3], l[4], l[5]>>
    ELSE LET ph == IF c \in SATerm THEN 1
                   ELSE IF c = "Close" /\ l[3] \in {1, 2} THEN 2
                   ELSE IF c = "Sp" /\ l[3] \in {1, 2, 3} THEN 3
                   ELSE 0
         IN << SKind(c), FALSE, ph,
               IF ph = 0 THEN FALSE ELSE IF ph = 1 THEN c = "ATerm" ELSE l[4],
               c = "ATerm" /\ l[1] \in {"Upper", "Lower"} >>
SRInit == <<"eot", FALSE>>
SRStep(r, c) == <<c, c = "Lower" \/ (c \notin SStop /\ r[2])>>
SBrk(l, r) ==
    LET b  == r[1]
        ph == l[3]
    IN  IF l[1] = "CR" /\ ~l[2] /\ b = "LF" THEN FALSE
        ELSE IF l[1] \in ParaSep /\ ~l[2] THEN TRUE
        ELSE IF b \in SIgn \/ ph = 0 THEN FALSE
        ELSE IF ph = 1 /\ l[4] /\ b = "Numeric" THEN FALSE
        ELSE IF ph = 1 /\ l[5] /\ b = "Upper" THEN FALSE
        ELSE IF l[4] /\ r[2] THEN FALSE
        ELSE IF b \in ({"SContinue", "Sp"} \cup SATerm \cup ParaSep) THEN FALSE
        ELSE IF b = "Close" THEN ph = 3
        ELSE TRUE
=============================================================================
