------------------------------ MODULE MC_Layout -----------------------------
(* All texts of up to N characters of an alphabet that mixes what matters to    *)
(* paragraphs, lines and levels, laid out in every way.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, MaxDepth, MaxPairs, Small, Flaw
VARIABLES text, dir, done, pos, lines
\* <<line class, bidi class, bracket>>
Tab == ("a" :> <<"AL", "L", 0>>) @@ ("alef" :> <<"HL", "R", 0>>) @@ ("sp" :> <<"SP", "WS", 0>>)
       @@ ("lf" :> <<"LF", "B", 0>>) @@ ("cr" :> <<"CR", "B", 0>>) @@ ("fs" :> <<"CM", "B", 0>>) @@ ("ls" :> <<"BK", "WS", 0>>)
       @@ ("1" :> <<"NU", "EN", 0>>) @@ ("(" :> <<"OP30", "ON", 1>>) @@ (")" :> <<"CP30", "ON", -1>>)
       @@ ("-" :> <<"HY", "ES", 0>>) @@ ("lri" :> <<"CM", "LRI", 0>>) @@ ("pdi" :> <<"CM", "PDI", 0>>) @@ ("rle" :> <<"CM", "RLE", 0>>)
Lb0(x) == Tab[x][1]
Bc0(x) == Tab[x][2]
Br0(x) == Tab[x][3]
INSTANCE Layout WITH LbOf <- Lb0, BcOf <- Bc0, BrOf <- Br0
Alphabet == IF Small THEN {"a", "alef", "sp", "lf", "fs", "(", ")", "lri", "rle"} ELSE DOMAIN Tab
Init == \E n \in 0..N : \E t \in [1..n -> Alphabet] : \E d \in Directions : Start(t, d)
Spec == Init /\ [][Fills]_lvars
=============================================================================
