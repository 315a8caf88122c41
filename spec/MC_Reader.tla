------------------------------ MODULE MC_Reader ------------------------------
(***************************************************************************)
(* The reader that all text functions share: a cursor over bytes, with an  *)
(* explicit length or NUL-terminated, and a stack of limits.  Declarative  *)
(* view: the text is Decode(visible bytes), a cursor at a codepoint of it; *)
(* a limit hides everything beyond it but does not change the text.        *)
(* TLC explores all interleavings of reads, peeks and limits over all      *)
(* short byte strings; the invariants say that the reader yields exactly   *)
(* that text and touches no byte beyond the length or the first NUL.       *)
(***************************************************************************)
EXTENDS UTF8
CONSTANTS N, Bytes, Depth
VARIABLES mem, nul, off, lim, out, touched, steps, last
vars == <<mem, nul, off, lim, out, touched, steps, last>>
(* mem: the bytes in memory; nul: TRUE if the length is SIZE_MAX, in which    *)
(* case mem is followed by a NUL                                              *)
Strings == UNION {[1..k -> Bytes] : k \in 0..N}
FirstNul(m) == LET S == {i \in 1..Len(m) : m[i] = 0}
               IN IF S = {} THEN Len(m) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* what the decoder sees from offset o on: in NUL mode also the terminator    *)
Seen(o) == IF nul THEN SubSeq(mem \o <<0>>, o + 1, Len(mem) + 1) ELSE SubSeq(mem, o + 1, Len(mem))
(* declarative: codepoints with their start offsets and the end of the text   *)
Visible == IF nul THEN SubSeq(mem, 1, FirstNul(mem) - 1) ELSE mem
(* in NUL mode a sequence cut off by the NUL is complete (malformed) and is
   part of the text; with an explicit length a cut-off sequence is left out   *)
TextSteps == IF ~nul THEN Decode(mem)
             ELSE LET q == Steps(Visible \o <<0>>) IN SubSeq(q, 1, Len(q) - 1)
Ends == [k \in 0..Len(TextSteps) |-> FoldLeft(LAMBDA a, d : a + d.ret, 0, SubSeq(TextSteps, 1, k))]
Total == Ends[Len(TextSteps)]

Init == /\ mem \in Strings /\ nul \in BOOLEAN /\ off = 0 /\ lim = <<>> /\ out = <<>>
        /\ touched = 0 /\ steps = 0 /\ last = "none"
Limit == IF lim = <<>> THEN 1000 ELSE lim[Len(lim)]
(* bytes the decoder looks at for one step of s: up to the byte that ends it  *)
Looks(s) == LET d == StepOf(s) IN
            IF s = <<>> THEN 0
            ELSE IF d.ret > Len(s) THEN Len(s)
            ELSE IF d.ret < Announced(s[1]) THEN d.ret + 1 ELSE d.ret
Read(adv) ==
    /\ steps < Depth /\ steps' = steps + 1
    /\ UNCHANGED <<mem, nul, lim>>
    /\ IF ~nul /\ off >= Len(mem) THEN last' = "end" /\ UNCHANGED <<off, out, touched>>
       ELSE IF off >= Limit THEN last' = "limit" /\ UNCHANGED <<off, out, touched>>
       ELSE LET d == StepOf(Seen(off))
                t == off + Looks(Seen(off))
            IN /\ touched' = IF t > touched THEN t ELSE touched
               /\ IF nul /\ d.cp = 0 THEN last' = "end" /\ UNCHANGED <<off, out>>
                  ELSE IF (~nul /\ off + d.ret > Len(mem)) THEN last' = "end" /\ UNCHANGED <<off, out>>
                  ELSE /\ last' = "ok"
                       /\ off' = IF adv THEN off + d.ret ELSE off
                       /\ out' = IF adv THEN Append(out, d.cp) ELSE out
(* a limit is set k codepoints ahead *)
Push(k) == /\ steps < Depth /\ steps' = steps + 1 /\ Len(lim) < 2
           /\ Len(out) + k <= Len(TextSteps)
           /\ Ends[Len(out) + k] <= Limit
           /\ lim' = Append(lim, Ends[Len(out) + k])
           /\ UNCHANGED <<mem, nul, off, out, touched, last>>
Pop == /\ lim # <<>> /\ steps < Depth /\ steps' = steps + 1
       /\ lim' = SubSeq(lim, 1, Len(lim) - 1) /\ UNCHANGED <<mem, nul, off, out, touched, last>>
Next == Read(TRUE) \/ Read(FALSE) \/ (\E k \in 0..2 : Push(k)) \/ Pop
Spec == Init /\ [][Next]_vars

YieldsText == /\ Len(out) <= Len(TextSteps)
              /\ \A i \in 1..Len(out) : out[i] = TextSteps[i].cp
              /\ off = Ends[Len(out)]
EndsRight  == last = "end" => Len(out) = Len(TextSteps)
NeverBeyondLimit == off <= Limit
(* with an explicit length nothing beyond it, in NUL mode nothing beyond the first NUL *)
Footprint  == touched <= IF nul THEN FirstNul(mem) ELSE Len(mem)
(* the two modes give the same text when no sequence is cut off at the end    *)
NulModeAgrees ==
    LET e == Steps(Visible)
    IN (FoldLeft(LAMBDA a, d : a + d.ret, 0, e) = Len(Visible)) => (nul => TextSteps = e)
=============================================================================
