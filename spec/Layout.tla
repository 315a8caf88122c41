------------------------------- MODULE Layout -------------------------------
(* A program that lays out a text with the library: it takes paragraph after    *)
(* paragraph, fills lines with as many unbreakable pieces as it likes, asks for *)
(* the levels of every line and reorders it.                                   *)
EXTENDS Line, Bidi
CONSTANTS LbOf(_), BcOf(_), BrOf(_),    \* line break class, bidi class, bracket code of a character
          Flaw       \* a flawed program: "alone" resolves every line as if it were a paragraph,
                     \* "rest" reorders what was removed
VARIABLES text, dir,      \* what is laid out, the direction asked for
          done,           \* number of characters of the finished paragraphs
          pos,            \* where the next line starts in the current paragraph
          lines           \* what was laid out: paragraph, line, its levels, its visual order
lvars == <<text, dir, done, pos, lines>>

Slice(t, from, to) == SubSeq(t, from + 1, to)
Lbs(t) == [i \in 1..Len(t) |-> LbOf(t[i])]
Bcs(t) == [i \in 1..Len(t) |-> BcOf(t[i])]
Brs(t) == [i \in 1..Len(t) |-> BrOf(t[i])]
(* break opportunities of a text, and the first of them *)
Opps(t) == LET w == Lbs(t) IN {i \in 1..(Len(w) - 1) : BRuleAt(w, i) \in BBreakRules} \cup {Len(w)}
FirstOpp(t) == LET o == Opps(t) IN CHOOSE i \in o : \A j \in o : i <= j
RECURSIVE Pieces(_, _)
\* where a line of k pieces ends
Pieces(t, k) == IF k = 0 \/ t = <<>> THEN 0
                ELSE LET p == FirstOpp(t) IN p + Pieces(Slice(t, p, Len(t)), k - 1)

Para(t, d)   == SubSeq(t, 1, P1(Bcs(t)))               \* the first paragraph of t
Level(p, d)  == ParaLevel(Bcs(p), d)
Levels(p, d) == Resolve(Bcs(p), Brs(p), Level(p, d))
LineOut(p, d, from, to) ==
    LET l0 == IF Flaw = "alone"
              THEN LET q == Slice(p, from, to) IN LineLevels(Bcs(q), Levels(q, d), Level(q, d), 1, Len(q))
              ELSE LineLevels(Bcs(p), Levels(p, d), Level(p, d), from + 1, to)
        ll == IF Flaw = "rest" THEN [i \in 1..Len(l0) |-> IF l0[i] = -1 THEN 0 ELSE l0[i]] ELSE l0
    IN [lev |-> ll, order |-> [j \in 1..Len(Reorder(ll)) |-> from + Reorder(ll)[j]]]

Start(t, d) == text = t /\ dir = d /\ done = 0 /\ pos = 0 /\ lines = <<>>
Current == Para(Slice(text, done, Len(text)), dir)
Fill(k) ==
    /\ done < Len(text)
    /\ LET p  == Current
           to == pos + Pieces(Slice(p, pos, Len(p)), k)
           o  == LineOut(p, dir, pos, to)
       IN /\ lines' = Append(lines, [para |-> done, plen |-> Len(p), from |-> pos, to |-> to, lev |-> o.lev, order |-> o.order])
          /\ done' = IF to = Len(p) THEN done + Len(p) ELSE done
          /\ pos' = IF to = Len(p) THEN 0 ELSE to
    /\ UNCHANGED <<text, dir>>
Fills == \E k \in 1..Len(text) : Fill(k)

(* ------------------------------- what holds ---------------------------------- *)
Abs(l) == l.para + l.from
\* lines follow one another without gap
Tiles == /\ \A i \in 1..Len(lines) : Abs(lines[i]) = IF i = 1 THEN 0 ELSE lines[i - 1].para + lines[i - 1].to
         /\ lines # <<>> => Last(lines).para + Last(lines).to = done + pos
\* a line ends where the whole paragraph may be broken
EndsAtOpportunity == \A i \in 1..Len(lines) :
    LET l == lines[i] IN l.to \in Opps(Slice(text, l.para, l.para + l.plen))
\* everything that is not removed is shown exactly once
ShownOnce == \A i \in 1..Len(lines) :
    LET l == lines[i]
    IN /\ Len(l.order) = Cardinality(ToSet(l.order))
       /\ ToSet(l.order) = {x \in (l.from + 1)..l.to : BcOf(text[l.para + x]) \notin Removed}
\* only blanks at ends of lines have levels that depend on where the lines are cut
CutsMatterLittle == \A i \in 1..Len(lines) :
    LET l == lines[i]
        p == Slice(text, l.para, l.para + l.plen)
        w == LineLevels(Bcs(p), Levels(p, dir), Level(p, dir), 1, Len(p))
    IN \A x \in (l.from + 1)..l.to :
         l.lev[x - l.from] # w[x] =>
            /\ l.lev[x - l.from] = Level(p, dir)
            /\ \A y \in x..l.to : BcOf(p[y]) \in {"WS", "S", "B", "PDI"} \cup Initiator \cup Removed
\* a text without right-to-left characters, numbers or formatting stays as it is
PlainStays == (dir # "RTL" /\ \A i \in 1..Len(text) : BcOf(text[i]) \in {"L", "WS", "ON", "B", "S", "NSM", "EN"})
              => \A i \in 1..Len(lines) : lines[i].order = [j \in 1..Len(lines[i].order) |-> lines[i].from + j]
\* a line never crosses a mandatory break
HardBreaks == \A i \in 1..Len(lines) :
    LET l == lines[i] p == Slice(text, l.para, l.para + l.plen)
    IN \A x \in (l.from + 1)..(l.to - 1) : LbOf(p[x]) \in {"BK", "CR", "LF", "NL"} =>
          \* unless the program took several pieces, the line ends there
          (l.to = l.from + FirstOpp(Slice(p, l.from, Len(p))) => LbOf(p[x]) = "CR" /\ LbOf(p[x + 1]) = "LF")
=============================================================================
