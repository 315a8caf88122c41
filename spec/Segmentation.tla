---------------------------- MODULE Segmentation ----------------------------
(***************************************************************************)
(* Generic part of the four text segmentations of libgrapheme.             *)
(*                                                                         *)
(* A segmentation is given twice:                                          *)
(*   - declaratively: RuleAt(s, i) names the first rule of the Unicode     *)
(*     annex that applies to the boundary between s[i] and s[i+1] of the   *)
(*     whole text s (a sequence of character classes), and BreakRules      *)
(*     says which rules break;                                             *)
(*   - operationally, as a bimachine: a left automaton (LInit, LStep) that *)
(*     summarises the text before a boundary, a right automaton (RInit,    *)
(*     RStep) that summarises, reading backwards, the text after it, and a *)
(*     decision Brk(l, r).                                                 *)
(* The state machine below grows texts symbol by symbol; the invariants    *)
(* state that both descriptions agree at every boundary of every text,     *)
(* that segmentation may be restarted at a boundary (so that repeated      *)
(* "next break" calls on the rest find the boundaries of the whole text),  *)
(* and that CR LF is never split.                                          *)
(* The bimachine is what is replayed into the implementation (it decides   *)
(* texts of any length in linear time).                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Classes, BreakRules, LInit, RInit,
          LStep(_, _), RStep(_, _), Brk(_, _), RuleAt(_, _),
          Alphabet,     \* letters explored by the model checker
          N             \* length of the texts explored

VARIABLE s              \* the text: a sequence over Classes

BreakAt(w, i) == RuleAt(w, i) \in BreakRules

LFold(w) == FoldLeft(LStep, LInit, w)
RFold(w) == FoldRight(LAMBDA c, r : RStep(r, c), w, RInit)

Prefix(w, i) == SubSeq(w, 1, i)
Suffix(w, i) == SubSeq(w, i + 1, Len(w))

(* All boundaries of w, as a set of offsets.                               *)
Boundaries(w) == {i \in 1..(Len(w) - 1) : BreakAt(w, i)} \cup {Len(w)}

(* What one "next break" call returns: the first boundary of the text.     *)
NextBreak(w) == IF w = <<>> THEN 0
                ELSE CHOOSE i \in Boundaries(w) : \A j \in Boundaries(w) : i <= j

Init == s = <<>>
Next == /\ Len(s) < N
        /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

BimachineAgrees ==
    \A i \in 1..(Len(s) - 1) :
        BreakAt(s, i) = Brk(LFold(Prefix(s, i)), RFold(Suffix(s, i)))

(* After a boundary, the rest of the text is segmented as if it stood alone *)
Restartable ==
    \A b \in 1..(Len(s) - 1) :
        BreakAt(s, b) =>
            \A i \in (b + 1)..(Len(s) - 1) :
                BreakAt(s, i) = BreakAt(Suffix(s, b), i - b)

(* Whether the text splits between a and b depends on nothing before the   *)
(* segment: next-break walks terminate and tile the text.                  *)
Progress == s # <<>> => NextBreak(s) \in 1..Len(s)

CRLFStaysTogether ==
    \A i \in 1..(Len(s) - 1) : (s[i] = "CR" /\ s[i + 1] = "LF") => ~BreakAt(s, i)

(***************************************************************************)
(* Reachable automaton states and the tables handed to the replay engine.  *)
(***************************************************************************)
RECURSIVE CloseL(_, _), CloseR(_, _)
CloseL(done, new) ==
    IF new = {} THEN done
    ELSE LET d == done \cup new
             n == {LStep(x, c) : x \in new, c \in Classes} \ d
         IN CloseL(d, n)
CloseR(done, new) ==
    IF new = {} THEN done
    ELSE LET d == done \cup new
             n == {RStep(x, c) : x \in new, c \in Classes} \ d
         IN CloseR(d, n)
LReach == CloseL({}, {LInit})
RReach == CloseR({}, {RInit})

Tables ==
    LET cs == SetToSeq(Classes)
        ls == <<LInit>> \o SetToSeq(LReach \ {LInit})
        rs == <<RInit>> \o SetToSeq(RReach \ {RInit})
        lidx == [x \in LReach |-> CHOOSE k \in 1..Len(ls) : ls[k] = x]
        ridx == [x \in RReach |-> CHOOSE k \in 1..Len(rs) : rs[k] = x]
    IN [classes |-> cs,
        lnext |-> [k \in 1..Len(ls) |-> [c \in 1..Len(cs) |-> lidx[LStep(ls[k], cs[c])] - 1]],
        rnext |-> [k \in 1..Len(rs) |-> [c \in 1..Len(cs) |-> ridx[RStep(rs[k], cs[c])] - 1]],
        brk |-> [k \in 1..Len(ls) |-> [m \in 1..Len(rs) |->
                    IF k = 1 \/ m = 1 THEN 0 ELSE IF Brk(ls[k], rs[m]) THEN 1 ELSE 0]]]
=============================================================================
