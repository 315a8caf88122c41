------------------------------- MODULE MC_UTF8 -------------------------------
(* Byte strings grow byte by byte.  The alphabet holds both ends of every    *)
(* interval of byte values that the definitions distinguish.                 *)
EXTENDS UTF8, Json, IOUtils, Long
CONSTANTS N, Small
VARIABLE s
BoundaryBytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225,
                  236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 255}
SmallBytes == {0, 128, 144, 160, 191, 194, 224, 237, 240, 244, 248}
Init == s = <<>>
Next == Len(s) < N /\ \E b \in IF Small THEN SmallBytes ELSE BoundaryBytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
NextLong == \E w \in Longer(s, BoundaryBytes, N) : s' = w
SpecLong == Init /\ [][NextLong]_s

Sum(q) == FoldLeft(LAMBDA a, d : a + d.ret, 0, q)

DecoderAgrees == Steps(s) = OpSteps(s)

(* every step consumes something, and the steps tile the string *)
Tiles == /\ \A i \in 1..Len(Steps(s)) : Steps(s)[i].ret >= 1
         /\ LET q == Steps(s)
            IN \/ Sum(q) = Len(s)
               \/ /\ Sum(q) > Len(s)
                  /\ LET p == SubSeq(q, 1, Len(q) - 1)
                     IN Sum(p) < Len(s)

(* A well-formed character is recovered wherever it stands: its first byte    *)
(* starts a step that yields it.                                              *)
Resynchronises ==
    \A i \in 1..Len(s) : \A j \in i..Len(s) :
        WellFormed(SubSeq(s, i, j)) =>
            \E k \in 1..Len(Steps(s)) :
                /\ Sum(SubSeq(Steps(s), 1, k - 1)) = i - 1
                /\ Steps(s)[k] = [ret |-> j - i + 1, cp |-> Bits(SubSeq(s, i, j))]

(* Splitting the string anywhere and asking for more whenever a step reports *)
(* more bytes than there are gives the steps of the whole string.            *)
ChunkIndependent ==
    \A c \in 0..Len(s) :
        LET q == Decode(SubSeq(s, 1, c))
        IN \A i \in 1..Len(q) : Steps(s)[i] = q[i]

RoundTrip ==
    /\ WellFormed(s) => Encode(Bits(s)) = s /\ StepOf(s) = [ret |-> Len(s), cp |-> Bits(s)]
    /\ \A i \in 1..Len(Steps(s)) : IsScalar(Steps(s)[i].cp)

(* the codepoints at both ends of every interval the encoder distinguishes *)
Ends == {0, 1, 127, 128, 2047, 2048, 55295, 55296, 57343, 57344, 65533, 65535, 65536, 1114111,
         1114112, 2097151, 16777216, 2147483647}
ASSUME \A c \in Ends : LET e == Encode(c)
                       IN /\ WellFormed(e) /\ Len(e) = Length(IF IsScalar(c) THEN c ELSE Invalid)
                          /\ StepOf(e) = [ret |-> Len(e), cp |-> IF IsScalar(c) THEN c ELSE Invalid]

(* tables for the replay *)
RECURSIVE Close(_, _)
Close(done, new) ==
    IF new = {} THEN done
    ELSE LET d == done \cup new IN Close(d, {DStep(x, b).q : x \in new, b \in 0..255} \ d)
QS == SetToSeq(Close({}, {DInit}) \ {DInit})
States == <<DInit>> \o QS
Idx(q) == CHOOSE k \in 1..Len(States) : States[k] = q
ASSUME "EMIT_OUT" \in DOMAIN IOEnv =>
    JsonSerialize(IOEnv.EMIT_OUT,
        [need |-> [k \in 1..Len(States) |-> States[k][1]],
         step |-> [k \in 1..Len(States) |-> [b \in 1..256 |->
            LET r == DStep(States[k], b - 1)
            IN <<Idx(r.q) - 1, IF r.out = "none" THEN 0 ELSE IF r.out = "ok" THEN 1 ELSE 2, r.n,
                 IF r.again THEN 1 ELSE 0>>]]])
=============================================================================
