------------------------------- MODULE MC_Case -------------------------------
(* Texts over the characters listed in IOEnv CHARS (representatives of every *)
(* combination of properties that matters for case) grow character by        *)
(* character.                                                                *)
EXTENDS Case, Json, IOUtils, Long
CONSTANTS N
VARIABLE s          \* indices into Chars
Chars == JsonDeserialize(IOEnv.CHARS)           \* every codepoint that can occur, alphabet first
NA == JsonDeserialize(IOEnv.NALPHA).n           \* size of the alphabet
PropOf == [c \in {Chars[i].cp : i \in 1..Len(Chars)} |->
              Chars[CHOOSE i \in 1..Len(Chars) : Chars[i].cp = c]]
Init == s = <<>>
Next == Len(s) < N /\ \E i \in 1..NA : s' = Append(s, i)
Spec == Init /\ [][Next]_s
NextLong == \E w \in Longer(s, 1..NA, N) : s' = w
SpecLong == Init /\ [][NextLong]_s
Text == [i \in 1..Len(s) |-> Chars[s[i]]]
ToText(cps) == [i \in 1..Len(cps) |-> PropOf[cps[i]]]

PassesAgree == \A k \in 1..3 : Convert(Text, k) = OpConvert(Text, k)
(* the outcome of an upper- or lowercase conversion is in that case and stays *)
Idempotent == \A k \in 1..2 :
    LET r == ToText(Convert(Text, k)) IN IsCase(r, k) /\ Convert(r, k) = Convert(Text, k)
(* detection is "the conversion changes nothing", also codepoint by codepoint *)
DetectionAgrees == \A k \in 1..3 :
    /\ IsCase(Text, k) = (Convert(Text, k) = [i \in 1..Len(s) |-> Text[i].cp])
    (* per codepoint, without any context, for upper and lower *)
    /\ k < 3 => (Matching(Text, k) = Len(s)
                 \/ FullMap(Text[Matching(Text, k) + 1], k) # <<Text[Matching(Text, k) + 1].cp>>)
(* a word's titlecase does not depend on its neighbours *)
WordLocal == LET E == WordEnds(Text)
             IN \A e \in E : LET v == SubSeq(Text, WordBegin(E, e), e)
                             IN FlattenSeq([i \in 1..Len(v) |-> TitleAt(Text, E, WordBegin(E, e) + i - 1)])
                                = OpTitleWord(v)
NothingLost == \A k \in 1..3 : Len(Convert(Text, k)) >= Len(s)

(* mappings of all codepoints, for the replay *)
ASSUME "EMIT_OUT" \in DOMAIN IOEnv =>
    LET all == JsonDeserialize(IOEnv.EMIT_IN)
    IN JsonSerialize(IOEnv.EMIT_OUT,
        [maps |-> [i \in 1..Len(all) |-> <<FullMap(all[i], 1), FullMap(all[i], 2), FullMap(all[i], 3)>>],
         sstep |-> [l \in 1..2 |-> [c \in 1..4 |->
              SStep(l - 1, [cased |-> (c - 1) % 2, ci |-> (c - 1) \div 2])]]])
=============================================================================
