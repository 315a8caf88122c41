-------------------------------- MODULE Case --------------------------------
(***************************************************************************)
(* Case conversion and case detection.                                     *)
(* A text is a sequence of characters; Prop(c) gives the Unicode data of a *)
(* character c as a record                                                 *)
(*   [cp, wb, extpict, cased, ci, simple, special]                         *)
(* simple = <<upper, lower, title>> of UnicodeData.txt, -1 where there is  *)
(* none; special = <<upper, lower, title>> (sequences) of the              *)
(* unconditional part of SpecialCasing.txt, or <<>>.                       *)
(***************************************************************************)
EXTENDS Word, Integers, SequencesExt

Sigma == 931         \* GREEK CAPITAL LETTER SIGMA
SmallFinal == 962    \* GREEK SMALL LETTER FINAL SIGMA

(* full mapping of one codepoint; k: 1 upper, 2 lower, 3 title.  A special   *)
(* mapping replaces the simple one; the simple titlecase mapping defaults to *)
(* the uppercase mapping, every other one to the character itself.           *)
FullMap(p, k) ==
    IF p.special # <<>> THEN p.special[k]
    ELSE IF p.simple[k] # -1 THEN <<p.simple[k]>>
    ELSE IF k = 3 /\ p.simple[1] # -1 THEN <<p.simple[1]>>
    ELSE <<p.cp>>

(*------------------------------ declarative ------------------------------*)
(* Final_Sigma (table 3-17): before: cased (case-ignorable)*, after: not     *)
(* ((case-ignorable)* cased)                                                 *)
FinalBefore(w, i) == \E j \in 1..(i - 1) :
    w[j].cased = 1 /\ \A m \in (j + 1)..(i - 1) : w[m].ci = 1
FinalAfter(w, i) == \E j \in (i + 1)..Len(w) :
    w[j].cased = 1 /\ \A m \in (i + 1)..(j - 1) : w[m].ci = 1
IsFinalSigma(w, i) == w[i].cp = Sigma /\ FinalBefore(w, i) /\ ~FinalAfter(w, i)

LowerAt(w, i) == IF IsFinalSigma(w, i) THEN <<SmallFinal>> ELSE FullMap(w[i], 2)
UpperAt(w, i) == FullMap(w[i], 1)
(* words of a text: its segments between word boundaries *)
WClassText(w) == [i \in 1..Len(w) |-> WClassOf(w[i])]
WordEnds(w) == LET q == WClassText(w)
               IN {i \in 1..(Len(w) - 1) : WRuleAt(q, i) \in WBreakRules}
                  \cup (IF w = <<>> THEN {} ELSE {Len(w)})
WordBegin(E, i) == LET S == {e \in E : e < i} IN
                   IF S = {} THEN 1 ELSE 1 + (CHOOSE e \in S : \A x \in S : x <= e)
WordEnd(E, i) == LET S == {e \in E : e >= i} IN CHOOSE e \in S : \A x \in S : e <= x
(* titlecase of position i in the text w whose words end at E *)
TitleAt(w, E, i) ==
    LET b == WordBegin(E, i)
        v == SubSeq(w, b, WordEnd(E, i))
        k == i - b + 1
        first == {j \in 1..Len(v) : v[j].cased = 1 /\ \A m \in 1..(j - 1) : v[m].cased = 0}
    IN IF first = {} \/ \A j \in first : k < j THEN <<v[k].cp>>
       ELSE IF k \in first THEN FullMap(v[k], 3)
       ELSE LowerAt(v, k)
Parts(w, k) == LET E == WordEnds(w)
               IN [i \in 1..Len(w) |-> IF k = 1 THEN UpperAt(w, i)
                                       ELSE IF k = 2 THEN LowerAt(w, i) ELSE TitleAt(w, E, i)]
Convert(w, k) == FlattenSeq(Parts(w, k))
(* detection: offset of the first codepoint that the conversion changes *)
Matching(w, k) == LET q == Parts(w, k)
                      S == {i \in 1..Len(w) : q[i] # <<w[i].cp>>}
                  IN IF S = {} THEN Len(w) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
IsCase(w, k) == Matching(w, k) = Len(w)

(*------------------------------ operational ------------------------------*)
(* one pass with two bits: "a cased letter and then only case-ignorables"    *)
(* on the left, the same read backwards on the right                         *)
SStep(l, c) == IF c.cased = 1 THEN 1 ELSE IF c.ci = 1 THEN l ELSE 0
RECURSIVE SFoldR(_, _)
SFoldR(w, i) == IF i > Len(w) THEN 0 ELSE SStep(SFoldR(w, i + 1), w[i])
OpLower(w, l0) ==
    LET F(a, i) == [l |-> SStep(a.l, w[i]),
                    o |-> a.o \o (IF w[i].cp = Sigma /\ a.l = 1 /\ SFoldR(w, i + 1) = 0
                                  THEN <<SmallFinal>> ELSE FullMap(w[i], 2))]
    IN FoldLeft(F, [l |-> l0, o |-> <<>>], [i \in 1..Len(w) |-> i]).o
(* titlecase: word by word, with the word found by the word bimachine and the
   rest of a word lowercased as if a cased letter stood before it            *)
WordLen(q) == LET L(k) == FoldLeft(WLStep, WLInit, SubSeq(q, 1, k))
                  R(k) == FoldRight(LAMBDA c, r : WRStep(r, c), SubSeq(q, k + 1, Len(q)), WRInit)
                  S == {k \in 1..Len(q) : k = Len(q) \/ WBrk(L(k), R(k))}
              IN CHOOSE k \in S : \A j \in S : k <= j
OpTitleWord(v) ==
    LET S == {j \in 1..Len(v) : v[j].cased = 1}
        f == IF S = {} THEN Len(v) + 1 ELSE CHOOSE j \in S : \A m \in S : j <= m
    IN [i \in 1..(f - 1) |-> v[i].cp]
       \o (IF S = {} THEN <<>> ELSE FullMap(v[f], 3) \o OpLower(SubSeq(v, f + 1, Len(v)), 1))
RECURSIVE OpTitle(_)
OpTitle(w) == IF w = <<>> THEN <<>>
              ELSE LET k == WordLen(WClassText(w))
                   IN OpTitleWord(SubSeq(w, 1, k)) \o OpTitle(SubSeq(w, k + 1, Len(w)))
OpConvert(w, k) == IF k = 1 THEN FlattenSeq([i \in 1..Len(w) |-> FullMap(w[i], 1)])
                   ELSE IF k = 2 THEN OpLower(w, 0) ELSE OpTitle(w)
=============================================================================
