---------------------------- MODULE Trace_Layout ----------------------------
(* Validates recorded layouts: what a program of Layout.tla got from the        *)
(* library, paragraph by paragraph and line by line.                           *)
(* A record: t (indices into chars), d, paras: [len, pl, lines: [k, to, lev, out]] *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.TRACE)
VARIABLES k, bad, seen
VARIABLES text, dir, done, pos, lines     \* of Layout; unused, its operators are applied to the records
LOf == INSTANCE Line
Lbc == [i \in 1..Len(In.chars) |-> LOf!BClassOf(In.chars[i].lp)]
LbT(x) == Lbc[x]
BcT(x) == In.chars[x].bc
BrT(x) == In.chars[x].br
L == INSTANCE Layout WITH LbOf <- LbT, BcOf <- BcT, BrOf <- BrT, Flaw <- "none", MaxDepth <- 125, MaxPairs <- 63
Dir(d) == <<"NEUTRAL", "LTR", "RTL">>[d + 1]
\* what one recorded line should have been
LineVerdict(p, d, pl, lv, from, g) ==
    LET to == from + L!Pieces(L!Slice(p, from, Len(p)), g.k)
        ll == L!LineLevels(L!Bcs(p), lv, pl, from + 1, to)
        v  == L!Reorder(ll)
        x(j) == In.chars[p[from + v[j]]]
    IN [to |-> to, lev |-> ll, out |-> [j \in 1..Len(v) |-> IF ll[v[j]] % 2 = 1 THEN x(j).mi ELSE x(j).cp],
        \* mirroring at even levels is a known deviation, subject of another property
        ok |-> IF to # g.to THEN "break" ELSE IF ll # g.lev THEN "levels"
               ELSE IF Len(v) # Len(g.out) \/ \E j \in 1..Len(v) : g.out[j] # x(j).mi /\ (ll[v[j]] % 2 = 1 \/ g.out[j] # x(j).cp)
               THEN "order" ELSE ""]
ParaVerdict(t, d, g) ==
    LET p  == L!Para(t, d)
        pl == L!Level(p, d)
        lv == L!Levels(p, d)
        f  == FoldLeft(LAMBDA a, l : IF a.stop THEN a
                 ELSE LET w == LineVerdict(p, d, pl, lv, a.from, l)
                      IN [from |-> w.to, o |-> Append(a.o, w), stop |-> w.ok # ""],
                 [from |-> 0, o |-> <<>>, stop |-> FALSE], g.lines)
    IN [len |-> Len(p), pl |-> pl, lines |-> f.o,
        ok |-> IF g.len # Len(p) THEN "length" ELSE IF g.pl # pl THEN "direction"
               ELSE IF f.stop THEN Last(f.o).ok ELSE IF f.from # Len(p) THEN "rest" ELSE ""]
Verdict(r) ==
    LET f == FoldLeft(LAMBDA a, g : IF a.ok # "" THEN a
                 ELSE LET w == ParaVerdict(L!Slice(r.t, a.off, Len(r.t)), Dir(r.d), g)
                      IN [off |-> a.off + w.len, ok |-> w.ok, want |-> w],
                 [off |-> 0, ok |-> "", want |-> <<>>], r.paras)
    IN [ok |-> IF f.ok = "" /\ f.off # Len(r.t) THEN "paragraphs" ELSE f.ok, want |-> f.want]
Init == /\ k = 0 /\ bad = <<>> /\ seen = [paragraphs |-> 0, lines |-> 0, several |-> 0]
        /\ text = 0 /\ dir = 0 /\ done = 0 /\ pos = 0 /\ lines = 0
Next == /\ k < Len(In.recs)
        /\ LET r == In.recs[k + 1]
               v == Verdict(r)
           IN /\ bad' = IF v.ok = "" THEN bad ELSE Append(bad, [rec |-> k, ok |-> v.ok, want |-> v.want])
              /\ seen' = [paragraphs |-> seen.paragraphs + Len(r.paras),
                          lines |-> seen.lines + FoldLeft(LAMBDA a, g : a + Len(g.lines), 0, r.paras),
                          several |-> seen.several + FoldLeft(LAMBDA a, g : a + Cardinality({i \in 1..Len(g.lines) : g.lines[i].k > 1}), 0, r.paras)]
        /\ k' = k + 1
        /\ (k' = Len(In.recs)) => JsonSerialize(IOEnv.TRACE_OUT, [bad |-> bad', seen |-> seen'])
        /\ UNCHANGED <<text, dir, done, pos, lines>>
Spec == Init /\ [][Next]_<<k, bad, seen, text, dir, done, pos, lines>>
=============================================================================
