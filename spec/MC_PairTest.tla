------------------------------ MODULE MC_PairTest ------------------------------
(* grapheme_is_character_break: a pairwise test whose only memory is a state    *)
(* owned by the caller.  The state the function keeps is the left automaton of  *)
(* Grapheme.tla without its last class (that is passed in as the first          *)
(* argument); a state of zero stands for "nothing known", i.e. the start of a   *)
(* text.  The caller may reset it to zero whenever a break was reported.        *)
EXTENDS Grapheme, SequencesExt
CONSTANTS Alphabet, N
All == GClasses
VARIABLES s,      \* the text so far
          st,     \* the state, never reset by the caller
          rst,    \* the state of a caller that may reset at breaks
          ans,    \* answers so far, without resets
          rans    \* answers with resets
vars == <<s, st, rst, ans, rans>>
Zero == <<0, 0>>
(* one call: the state after having seen a, the answer for the pair a, b       *)
After(m, a) == LET l == GLStep(<<"x", m[1], m[2]>>, a) IN <<l[2], l[3]>>
Answer(m, a, b) == LET n == After(m, a) IN GBrk(<<a, n[1], n[2]>>, b)
Init == s = <<>> /\ st = Zero /\ rst = Zero /\ ans = <<>> /\ rans = <<>>
Next ==
  /\ Len(s) < N
  /\ \E c \in Alphabet :
      /\ s' = Append(s, c)
      /\ IF s = <<>> THEN UNCHANGED <<st, rst, ans, rans>>
         ELSE LET a == s[Len(s)] IN
              /\ st' = After(st, a)
              /\ ans' = Append(ans, Answer(st, a, c))
              /\ rans' = Append(rans, Answer(rst, a, c))
              /\ \/ rst' = After(rst, a)
                 \/ Answer(rst, a, c) /\ rst' = Zero
Spec == Init /\ [][Next]_vars
PairAgrees == \A i \in 1..Len(ans) : ans[i] = (GRuleAt(s, i) \in GBreakRules)
ResetHarmless == ans = rans
NullIsFresh == Len(s) = 2 =>
    Answer(Zero, s[1], s[2]) = (GRuleAt(s, 1) \in GBreakRules)
=============================================================================
