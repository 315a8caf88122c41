---------------------------- MODULE Trace_Stream ----------------------------
(* Validates recorded streaming runs: what the three readers of Stream.tla      *)
(* obtained from the library after every portion.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, bad, seen
VARIABLES text, rcv, closed, a, b, c      \* of Stream; unused, its operators are applied to the records
Idx == [x \in {In.chars[i].cp : i \in 1..Len(In.chars)} |->
          CHOOSE i \in 1..Len(In.chars) : In.chars[i].cp = x]
GOf == INSTANCE Grapheme
GCT(x) == GOf!GClassOf(In.chars[Idx[x]])
MappedT(x) == In.chars[Idx[x]].up
S == INSTANCE Stream WITH GC <- GCT, Mapped <- MappedT, Flaw <- "none"
Verdict(r) ==
    LET f == FoldLeft(LAMBDA s, e :
               LET n == s.n + e.k
                   a1 == S!RunA(s.a, r.t, n, e.reset = 1)
                   b1 == S!RunB(s.b, r.t, n, e.close = 1)
                   c1 == S!RunC(s.c, r.t, n)
               IN [n |-> n, a |-> a1, b |-> b1, c |-> c1,
                   ok |-> s.ok \cup (IF e.a = a1.brk THEN {} ELSE {"pairwise"})
                               \cup (IF e.b = b1.brk THEN {} ELSE {"next break"})
                               \cup (IF e.c = c1.out THEN {} ELSE {"conversion"})],
               [n |-> 0, a |-> S!AInit, b |-> S!BInit, c |-> S!CInit, ok |-> {}], r.ev)
    IN [ok |-> f.ok, a |-> f.a.brk, b |-> f.b.brk, c |-> f.c.out]
Init == /\ k = 0 /\ bad = <<>> /\ seen = [portions |-> 0, clusters |-> 0, waits |-> 0]
        /\ text = 0 /\ rcv = 0 /\ closed = 0 /\ a = 0 /\ b = 0 /\ c = 0
Next == /\ k < Len(In.recs)
        /\ LET r == In.recs[k + 1]
               v == Verdict(r)
           IN /\ bad' = IF v.ok = {} THEN bad ELSE Append(bad, [rec |-> k, want |-> v])
              /\ seen' = [portions |-> seen.portions + Len(r.ev), clusters |-> seen.clusters + Len(v.b),
                          waits |-> seen.waits + Cardinality({i \in 2..Len(r.ev) : r.ev[i].b = r.ev[i - 1].b})]
        /\ k' = k + 1
        /\ (k' = Len(In.recs)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', seen |-> seen'])
        /\ UNCHANGED <<text, rcv, closed, a, b, c>>
Spec == Init /\ [][Next]_<<k, bad, seen, text, rcv, closed, a, b, c>>
=============================================================================
