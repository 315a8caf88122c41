-------------------------------- MODULE UTF8 --------------------------------
(***************************************************************************)
(* UTF-8 as libgrapheme defines it for every byte string.                  *)
(*                                                                         *)
(* Declarative part: the encoding of a scalar value (Unicode, table 3-6),  *)
(* well-formedness as "is the encoding of some scalar value", and what one *)
(* decoding step of a byte string reports (StepAt).                        *)
(* Operational part: a decoder that consumes one byte at a time (DStep),   *)
(* whose tables are replayed into the implementation.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Invalid == 65533
MaxCP   == 1114111
IsScalar(c) == c \in 0..MaxCP /\ c \notin 55296..57343

(*------------------------------ declarative ------------------------------*)
Length(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Pow64(k)  == IF k = 0 THEN 1 ELSE IF k = 1 THEN 64 ELSE IF k = 2 THEN 4096 ELSE 262144
LeadBase(n) == IF n = 1 THEN 0 ELSE IF n = 2 THEN 192 ELSE IF n = 3 THEN 224 ELSE 240
EncodeScalar(c) ==
    LET n == Length(c)
    IN [i \in 1..n |-> IF i = 1 THEN LeadBase(n) + (c \div Pow64(n - 1))
                       ELSE 128 + ((c \div Pow64(n - i)) % 64)]
Encode(c) == EncodeScalar(IF IsScalar(c) THEN c ELSE Invalid)

IsCont(b) == b \in 128..191
(* number of bytes the lead byte announces; 1 for bytes that announce nothing *)
Announced(b) == IF b < 192 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3
                ELSE IF b < 248 THEN 4 ELSE 1
(* the bits of a sequence of the announced length *)
Bits(s) == LET n == Len(s)
           IN (s[1] - LeadBase(n)) * Pow64(n - 1)
              + (IF n > 1 THEN (s[2] % 64) * Pow64(n - 2) ELSE 0)
              + (IF n > 2 THEN (s[3] % 64) * Pow64(n - 3) ELSE 0)
              + (IF n > 3 THEN (s[4] % 64) ELSE 0)
(* s is the UTF-8 encoding of a scalar value *)
WellFormed(s) ==
    /\ s # <<>>
    /\ Len(s) = Announced(s[1]) /\ s[1] \notin 128..191 /\ s[1] < 248
    /\ \A i \in 2..Len(s) : IsCont(s[i])
    /\ IsScalar(Bits(s)) /\ EncodeScalar(Bits(s)) = s

(* continuation bytes after position 1, at most k of them *)
RECURSIVE Conts(_, _, _)
Conts(s, i, k) == IF k = 0 \/ i > Len(s) THEN 0 ELSE IF ~IsCont(s[i]) THEN 0
                  ELSE 1 + Conts(s, i + 1, k - 1)

(* one decoding step at the start of s: bytes processed and codepoint        *)
StepOf(s) ==
    IF s = <<>> THEN [ret |-> 0, cp |-> Invalid]
    ELSE LET a == Announced(s[1])
             c == Conts(s, 2, a - 1)
         IN IF Len(s) < a /\ 1 + c = Len(s)
            THEN [ret |-> a, cp |-> Invalid]                 \* cut off: more bytes needed
            ELSE LET t == SubSeq(s, 1, 1 + c)
                 IN [ret |-> 1 + c, cp |-> IF WellFormed(t) THEN Bits(t) ELSE Invalid]

Rest(s, k) == SubSeq(s, k + 1, Len(s))
(* the steps of a whole byte string: <<ret, cp>> ...; a cut-off tail is the last *)
RECURSIVE Steps(_)
Steps(s) == IF s = <<>> THEN <<>>
            ELSE LET d == StepOf(s)
                 IN IF d.ret > Len(s) THEN <<d>> ELSE <<d>> \o Steps(Rest(s, d.ret))
(* the text a byte string stands for in the functions that take texts: a
   sequence cut off at the end is left out                                  *)
Decode(s) == LET q == Steps(s)
             IN IF q # <<>> /\ FoldLeft(LAMBDA a, d : a + d.ret, 0, q) > Len(s)
                THEN SubSeq(q, 1, Len(q) - 1) ELSE q

(*------------------------------ operational ------------------------------*)
(* state: <<announced, seen, kind>>; kind: "ok" second byte unrestricted,    *)
(* "lo"/"hi": second byte must be below/from a limit, "bad" already wrong    *)
DInit == <<0, 0, "ok", 0>>
LeadState(b) ==
    CASE b \in 192..193 -> <<2, 1, "bad", 0>>
      [] b \in 194..223 -> <<2, 1, "ok", 0>>
      [] b = 224 -> <<3, 1, "hi", 160>>
      [] b = 237 -> <<3, 1, "lo", 160>>
      [] b \in 225..236 \cup 238..239 -> <<3, 1, "ok", 0>>
      [] b = 240 -> <<4, 1, "hi", 144>>
      [] b \in 241..243 -> <<4, 1, "ok", 0>>
      [] b = 244 -> <<4, 1, "lo", 144>>
      [] b \in 245..247 -> <<4, 1, "bad", 0>>
Starts(b) == b \in 192..247
(* outcome of feeding byte b in state q:
   [q, out, n]: out in "none","ok","bad": a step of n bytes ended; again: b is
   to be fed once more (it was not consumed)                                *)
DStep(q, b) ==
    IF q[1] = 0
    THEN IF b < 128 THEN [q |-> DInit, out |-> "ok", n |-> 1, again |-> FALSE]
         ELSE IF Starts(b) THEN [q |-> LeadState(b), out |-> "none", n |-> 0, again |-> FALSE]
         ELSE [q |-> DInit, out |-> "bad", n |-> 1, again |-> FALSE]
    ELSE IF ~IsCont(b) THEN [q |-> DInit, out |-> "bad", n |-> q[2], again |-> TRUE]
    ELSE LET k == IF q[3] = "hi" /\ b < q[4] THEN "bad"
                  ELSE IF q[3] = "lo" /\ b >= q[4] THEN "bad"
                  ELSE IF q[3] = "bad" THEN "bad" ELSE "ok"
         IN IF q[2] + 1 = q[1]
            THEN [q |-> DInit, out |-> k, n |-> q[1], again |-> FALSE]
            ELSE [q |-> <<q[1], q[2] + 1, k, 0>>, out |-> "none", n |-> 0, again |-> FALSE]
(* feeding all bytes: <<state, finished steps as <<ret, ok>> >> *)
Feed1(a, b) ==
    LET r == DStep(a.q, b)
        e == IF r.out = "none" THEN a.e ELSE Append(a.e, <<r.n, r.out = "ok">>)
    IN IF ~r.again THEN [q |-> r.q, e |-> e]
       ELSE LET r2 == DStep(r.q, b)
            IN [q |-> r2.q, e |-> IF r2.out = "none" THEN e ELSE Append(e, <<r2.n, r2.out = "ok">>)]
Run(s) == FoldLeft(Feed1, [q |-> DInit, e |-> <<>>], s)
(* steps of the operational decoder, in the format of Steps *)
OpSteps(s) ==
    LET r == Run(s)
        ends == [i \in 0..Len(r.e) |-> FoldLeft(LAMBDA a, x : a + x[1], 0, SubSeq(r.e, 1, i))]
        q == [i \in 1..Len(r.e) |->
                [ret |-> r.e[i][1],
                 cp |-> IF r.e[i][2] THEN Bits(SubSeq(s, ends[i - 1] + 1, ends[i])) ELSE Invalid]]
    IN IF r.q[1] = 0 THEN q ELSE Append(q, [ret |-> r.q[1], cp |-> Invalid])
=============================================================================
