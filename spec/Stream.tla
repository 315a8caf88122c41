------------------------------- MODULE Stream --------------------------------
(* A text that arrives in pieces.  Bytes come in through Receive in portions   *)
(* of any size and finally Close says that nothing more comes.  After every     *)
(* portion three readers use the library on what is there:                     *)
(*   A  decodes codepoint by codepoint, waits when the decoder asks for more   *)
(*      bytes than there are, and asks the pairwise test with a state that it  *)
(*      keeps (or resets at breaks);                                           *)
(*   B  asks for the next character break of the part it has not dealt with    *)
(*      and accepts the answer if a complete codepoint stands behind it, or    *)
(*      nothing more comes;                                                    *)
(*   C  converts all complete codepoints there are with a conversion without   *)
(*      context and keeps the rest for later.                                  *)
(* Whatever the portions, all of them obtain what the complete text has.       *)
EXTENDS UTF8, Grapheme
CONSTANTS GC(_),        \* grapheme class of a codepoint
          Mapped(_),    \* what C turns a codepoint into
          Flaw          \* a flawed reader, to see that the invariants notice it:
                        \*   eager  B accepts every answer at once
                        \*   forget A forgets its state between portions
                        \*   drop   C takes a cut-off sequence for a malformed one
VARIABLES text,         \* everything that will have come
          rcv, closed,  \* number of bytes that came; nothing more comes
          a, b, c       \* the readers
vars == <<text, rcv, closed, a, b, c>>

AInit == [off |-> 0, prev |-> "none", st |-> <<0, 0>>, brk |-> <<>>]
BInit == [off |-> 0, brk |-> <<>>]
CInit == [off |-> 0, out |-> <<>>]

Avail(t, n, off) == SubSeq(t, off + 1, n)
\* the pairwise test: the answer and the state afterwards (cf. MC_PairTest)
Pair(st, x, y) ==
    LET l == GLStep(<<"x", st[1], st[2]>>, x)
    IN [brk |-> GBrk(l, y), st |-> <<l[2], l[3]>>]

RECURSIVE RunA(_, _, _, _)
RunA(r, t, n, reset) ==
    LET s == Avail(t, n, r.off)
        d == StepOf(s)
        y == GC(d.cp)
        p == Pair(r.st, r.prev, y)
    IN IF s = <<>> \/ d.ret > Len(s) THEN r
       ELSE RunA(IF r.prev = "none"
                 THEN [r EXCEPT !.off = @ + d.ret, !.prev = y]
                 ELSE [off |-> r.off + d.ret, prev |-> y,
                       st |-> IF reset /\ p.brk THEN <<0, 0>> ELSE p.st,
                       brk |-> IF p.brk THEN Append(r.brk, r.off) ELSE r.brk], t, n, reset)

\* the first break of a sequence of classes, by the rules
FirstBreak(w) == LET S == {i \in 1..(Len(w) - 1) : GRuleAt(w, i) \in GBreakRules} \cup {Len(w)}
                 IN CHOOSE i \in S : \A j \in S : i <= j
Size(q) == FoldLeft(LAMBDA x, d : x + d.ret, 0, q)
ClassesOf(q) == [i \in 1..Len(q) |-> GC(q[i].cp)]
\* what the function that returns the next break says about s
NextBreak8(s) == LET q == Decode(s)
                 IN IF q = <<>> THEN 0 ELSE Size(SubSeq(q, 1, FirstBreak(ClassesOf(q))))
RECURSIVE RunB(_, _, _, _)
RunB(r, t, n, end) ==
    LET s == Avail(t, n, r.off)
        k == NextBreak8(s)
        rest == SubSeq(s, k + 1, Len(s))
    IN IF k = 0 \/ (~end /\ Flaw # "eager" /\ (rest = <<>> \/ StepOf(rest).ret > Len(rest))) THEN r
       ELSE RunB([off |-> r.off + k, brk |-> Append(r.brk, r.off + k)], t, n, end)

RunC(r, t, n) ==
    LET s == Avail(t, n, r.off)
        q == IF Flaw = "drop" THEN [i \in 1..Len(Steps(s)) |-> [Steps(s)[i] EXCEPT !.ret = IF @ > Len(s) THEN 1 ELSE @]]
             ELSE Decode(s)
    IN [off |-> r.off + Size(q), out |-> FoldLeft(LAMBDA o, d : o \o Mapped(d.cp), r.out, q)]

Start(t) == text = t /\ rcv = 0 /\ closed = FALSE /\ a = AInit /\ b = BInit /\ c = CInit
Receive(k) ==
    /\ ~closed /\ k >= 1 /\ rcv + k <= Len(text)
    /\ rcv' = rcv + k
    /\ \E reset \in BOOLEAN : a' = RunA(IF Flaw = "forget" THEN [a EXCEPT !.st = <<0, 0>>] ELSE a, text, rcv', reset)
    /\ b' = RunB(b, text, rcv', FALSE)
    /\ c' = RunC(c, text, rcv')
    /\ UNCHANGED <<text, closed>>
Close ==
    /\ ~closed /\ rcv = Len(text) /\ closed' = TRUE
    /\ b' = RunB(b, text, rcv, TRUE)
    /\ UNCHANGED <<text, rcv, a, c>>
Next == (\E k \in 1..Len(text) : Receive(k)) \/ Close

(* -------------------------------- the whole text ------------------------------ *)
Whole == Decode(text)
Ends == [i \in 0..Len(Whole) |-> Size(SubSeq(Whole, 1, i))]
Bounds == LET w == ClassesOf(Whole)
          IN {Ends[i] : i \in {j \in 1..(Len(w) - 1) : GRuleAt(w, j) \in GBreakRules}}
Limit == Ends[Len(Whole)]


\* never a boundary that the complete text does not have, none left out
ASound == /\ ToSet(a.brk) = {x \in Bounds : \E i \in 1..Len(Whole) : Ends[i - 1] = x /\ Ends[i] <= a.off}
          /\ \E i \in 0..Len(Whole) : Ends[i] = a.off
BSound == ToSet(b.brk) = {x \in Bounds \cup (IF closed /\ text # <<>> /\ Limit > 0 THEN {Limit} ELSE {}) : x <= b.off}
CSound == \E i \in 0..Len(Whole) :
            Ends[i] = c.off /\ c.out = FoldLeft(LAMBDA o, d : o \o Mapped(d.cp), <<>>, SubSeq(Whole, 1, i))
\* readers keep up: what is not yet dealt with cannot be
NoDelay == /\ a.off = c.off
           /\ LET s == Avail(text, rcv, a.off) IN s = <<>> \/ StepOf(s).ret > Len(s)
           /\ \A x \in Bounds : x > b.off => x >= a.off
\* and in the end they have all of it
Complete == closed => a.off = Limit /\ b.off = Limit /\ c.off = Limit
\* what was said is not taken back
Final == [][/\ \E s \in {SubSeq(a'.brk, 1, i) : i \in 0..Len(a'.brk)} : s = a.brk
            /\ \E s \in {SubSeq(b'.brk, 1, i) : i \in 0..Len(b'.brk)} : s = b.brk
            /\ \E s \in {SubSeq(c'.out, 1, i) : i \in 0..Len(c'.out)} : s = c.out]_vars
=============================================================================
