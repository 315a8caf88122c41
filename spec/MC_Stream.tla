----------------------------- MODULE MC_Stream ------------------------------
(* All texts of up to N tokens (characters of the classes that matter, and      *)
(* fragments of sequences) in all portions.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, Small, Flaw
VARIABLES text, rcv, closed, a, b, c
Tab == (97 :> "Other") @@ (13 :> "CR") @@ (10 :> "LF") @@ (769 :> "Extend") @@ (8205 :> "ZWJ")
       @@ (127462 :> "RI") @@ (128512 :> "ExtPict") @@ (1536 :> "Prepend") @@ (2307 :> "SpacingMark")
       @@ (4352 :> "L") @@ (44032 :> "LV") @@ (65533 :> "Other")
GC0(cp) == IF cp \in DOMAIN Tab THEN Tab[cp] ELSE "Other"
Mapped0(cp) == IF cp = 97 THEN <<65>> ELSE IF cp = 128512 THEN <<1, 2>> ELSE <<cp>>
INSTANCE Stream WITH GC <- GC0, Mapped <- Mapped0
Characters == {EncodeScalar(x) : x \in IF Small THEN {97, 769, 8205, 127462, 128512} ELSE DOMAIN Tab \ {65533}}
Fragments == {<<240, 159>>, <<226, 128>>, <<204>>, <<129>>, <<255>>} \cup IF Small THEN {} ELSE {<<240>>, <<237, 160>>, <<152, 128>>, <<0>>}
Texts == {FoldLeft(LAMBDA x, y : x \o y, <<>>, q) : q \in UNION {[1..k -> Characters \cup Fragments] : k \in 0..N}}
Init == \E t \in Texts : Start(t)
Spec == Init /\ [][Next]_vars
=============================================================================
