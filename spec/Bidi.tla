-------------------------------- MODULE Bidi --------------------------------
(* The Unicode Bidirectional Algorithm (UAX #9, Unicode 15.0).                 *)
(*                                                                             *)
(* A text is a sequence c of Bidi_Class names and a sequence b of bracket      *)
(* codes: 0 for a character that is no paired bracket, k > 0 for an opening    *)
(* bracket of kind k and -k for the closing bracket of that kind (kinds are    *)
(* classes of canonically equivalent brackets).  Every rule of the annex has   *)
(* its own operator.  The limits of the annex (125 levels, 63 open brackets)   *)
(* are constants, so that a model checker can look at small instances.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxDepth, MaxPairs

Initiator == {"LRI", "RLI", "FSI"}
Embedding == {"LRE", "RLE", "LRO", "RLO"}
Removed   == Embedding \cup {"PDF", "BN"}                               \* X9
Strong    == {"L", "R", "AL"}
NI        == {"B", "S", "WS", "ON", "PDI"} \cup Initiator
BidiClasses == Strong \cup Removed \cup NI \cup {"EN", "ES", "ET", "AN", "CS", "NSM"}
Directions == {"NEUTRAL", "LTR", "RTL"}       \* of the caller: NEUTRAL applies P2 and P3

Max2(x, y)  == IF x > y THEN x ELSE y
DirOf(l)    == IF l % 2 = 0 THEN "L" ELSE "R"
NextOdd(l)  == IF l % 2 = 0 THEN l + 1 ELSE l + 2
NextEven(l) == IF l % 2 = 0 THEN l + 2 ELSE l + 1

(* ----------------------------- paragraphs ---------------------------------- *)
\* P1: number of characters of the first paragraph, its separator included
ParaLen(c) == FoldLeftDomain(LAMBDA a, i : IF a = 0 /\ c[i] = "B" THEN i ELSE a, 0, c)
P1(c) == LET k == ParaLen(c) IN IF k = 0 THEN Len(c) ELSE k

\* BD9: for every initiator the position of its matching PDI (Len(c) + 1 when
\* there is none), 0 elsewhere; c is a single paragraph
MatchTab(c) ==
    FoldLeftDomain(LAMBDA a, i :
        IF c[i] \in Initiator THEN [a EXCEPT !.stk = Append(@, i)]
        ELSE IF c[i] = "PDI" /\ a.stk # <<>>
             THEN [stk |-> Front(a.stk), m |-> [a.m EXCEPT ![Last(a.stk)] = i]]
             ELSE a,
        [stk |-> <<>>, m |-> [i \in 1..Len(c) |-> IF c[i] \in Initiator THEN Len(c) + 1 ELSE 0]], c).m

\* P2: the first strong character in from..to, not looking into isolates
FirstStrong(c, m, from, to) ==
    FoldLeft(LAMBDA a, i :
        IF a.r # "none" \/ i < a.skip THEN a
        ELSE IF c[i] \in Initiator THEN [a EXCEPT !.skip = m[i]]
        ELSE IF c[i] \in Strong THEN [a EXCEPT !.r = c[i]]
        ELSE a,
        [r |-> "none", skip |-> 0], [k \in 1..(IF to >= from THEN to - from + 1 ELSE 0) |-> from + k - 1]).r
\* P3
LevelOfStrong(x) == IF x \in {"R", "AL"} THEN 1 ELSE 0
ParaLevel(c, dir) ==
    CASE dir = "LTR" -> 0
      [] dir = "RTL" -> 1
      [] OTHER -> LevelOfStrong(FirstStrong(c, MatchTab(c), 1, Len(c)))

(* ------------------- explicit levels and directions: X1-X8 ------------------- *)
Entry(l, o, i) == [lv |-> l, ov |-> o, iso |-> i]
RECURSIVE PopToIsolate(_)
PopToIsolate(stk) == IF Last(stk).iso THEN Front(stk) ELSE PopToIsolate(Front(stk))
Overridden(e, x) == IF e.ov = "none" THEN x ELSE e.ov

XInit(pl) == [stk |-> <<Entry(pl, "none", FALSE)>>, oi |-> 0, oe |-> 0, vi |-> 0,
              lev |-> <<>>, typ |-> <<>>]
Put(a, l, t) == [a EXCEPT !.lev = Append(@, l), !.typ = Append(@, t)]
\* one character; k: what an FSI at this place acts as (RLI or LRI)
XStep(a, x, pl, fsi) ==
    LET top == Last(a.stk)
        room(l) == l <= MaxDepth /\ a.oi = 0 /\ a.oe = 0
        embed(l, o) ==                                                  \* X2-X5
            IF room(l) THEN [a EXCEPT !.stk = Append(@, Entry(l, o, FALSE))]
            ELSE [a EXCEPT !.oe = IF a.oi = 0 THEN @ + 1 ELSE @]
        isolate(l) ==                                                   \* X5a-X5c
            LET a1 == Put(a, top.lv, Overridden(top, x))
            IN IF room(l) THEN [a1 EXCEPT !.stk = Append(@, Entry(l, "none", TRUE)), !.vi = @ + 1]
               ELSE [a1 EXCEPT !.oi = @ + 1]
        pdi == IF a.oi > 0 THEN [a EXCEPT !.oi = @ - 1]                  \* X6a
               ELSE IF a.vi = 0 THEN a
               ELSE [a EXCEPT !.oe = 0, !.vi = @ - 1, !.stk = PopToIsolate(@)]
        pdf == IF a.oi > 0 THEN a                                       \* X7
               ELSE IF a.oe > 0 THEN [a EXCEPT !.oe = @ - 1]
               ELSE IF ~top.iso /\ Len(a.stk) >= 2 THEN [a EXCEPT !.stk = Front(@)]
               ELSE a
        kind == IF x = "FSI" THEN fsi ELSE x
    IN CASE x = "RLE" -> Put(embed(NextOdd(top.lv), "none"), -1, x)
         [] x = "LRE" -> Put(embed(NextEven(top.lv), "none"), -1, x)
         [] x = "RLO" -> Put(embed(NextOdd(top.lv), "R"), -1, x)
         [] x = "LRO" -> Put(embed(NextEven(top.lv), "L"), -1, x)
         [] kind = "RLI" -> isolate(NextOdd(top.lv))
         [] kind = "LRI" -> isolate(NextEven(top.lv))
         [] x = "PDI" -> LET a1 == pdi IN Put(a1, Last(a1.stk).lv, Overridden(Last(a1.stk), x))
         [] x = "PDF" -> Put(pdf, -1, x)
         [] x = "B"   -> Put(a, pl, x)                                  \* X8
         [] x = "BN"  -> Put(a, -1, x)
         [] OTHER     -> Put(a, top.lv, Overridden(top, x))             \* X6

\* X5c: the direction of the text of the isolate
FsiKind(c, m, i) == IF LevelOfStrong(FirstStrong(c, m, i + 1, m[i] - 1)) = 1 THEN "RLI" ELSE "LRI"
Explicit(c, m, pl) ==
    FoldLeftDomain(LAMBDA a, i : XStep(a, c[i], pl, IF c[i] = "FSI" THEN FsiKind(c, m, i) ELSE ""),
                   XInit(pl), c)

(* -------------------- isolating run sequences: BD13, X10 --------------------- *)
Kept(lev) == LET idx == [i \in 1..Len(lev) |-> i] IN SelectSeq(idx, LAMBDA i : lev[i] # -1)
\* the sequences, as sequences of positions.  A position is continued by the next
\* one of its level run; at the end of the run an initiator is continued by its
\* matching PDI.
Sequences(c, m, lev) ==
    LET k == Kept(lev)
        r == FoldLeftDomain(LAMBDA a, j :
               LET p   == k[j]
                   own == a.owner[p]                  \* sequence that p continues, 0: a new one
                   s   == IF own = 0 THEN Len(a.seqs) + 1 ELSE own
                   sq  == IF own = 0 THEN Append(a.seqs, <<p>>) ELSE [a.seqs EXCEPT ![own] = Append(@, p)]
                   nx  == IF j < Len(k) /\ lev[k[j + 1]] = lev[p] THEN k[j + 1]
                          ELSE IF c[p] \in Initiator /\ m[p] <= Len(c) THEN m[p] ELSE 0
               IN [seqs |-> sq, owner |-> IF nx = 0 THEN a.owner ELSE [a.owner EXCEPT ![nx] = s]],
               [seqs |-> <<>>, owner |-> [i \in 1..Len(c) |-> 0]], k)
    IN r.seqs
\* X10: start and end of sequence directions
NextKept(lev, p) == FoldLeftDomain(LAMBDA a, i : IF a = 0 /\ i > p /\ lev[i] # -1 THEN i ELSE a, 0, lev)
PrevKept(lev, p) == FoldLeftDomain(LAMBDA a, i : IF i < p /\ lev[i] # -1 THEN i ELSE a, 0, lev)
Sos(lev, pl, s) == LET q == PrevKept(lev, s[1])
                   IN DirOf(Max2(lev[s[1]], IF q = 0 THEN pl ELSE lev[q]))
Eos(c, m, lev, pl, s) ==
    LET z == Last(s)
        q == NextKept(lev, z)
        follow == IF q = 0 \/ c[z] \in Initiator THEN pl ELSE lev[q]
    IN DirOf(Max2(lev[z], follow))

(* ------------- weak types; t: types of one sequence, left to right ----------- *)
W1(t, sos) == FoldLeft(LAMBDA a, x :
    LET prev == IF a = <<>> THEN sos ELSE Last(a)
    IN Append(a, IF x # "NSM" THEN x ELSE IF prev \in Initiator \cup {"PDI"} THEN "ON" ELSE prev), <<>>, t)
\* rules that look back for the last strong type: from EN to `to' when it is `when'
Lookback(t, sos, when, to) == FoldLeft(LAMBDA a, x :
    [s |-> IF x \in Strong THEN x ELSE a.s,
     o |-> Append(a.o, IF x = "EN" /\ a.s = when THEN to ELSE x)], [s |-> sos, o |-> <<>>], t).o
W2(t, sos) == Lookback(t, sos, "AL", "AN")
W3(t) == [i \in 1..Len(t) |-> IF t[i] = "AL" THEN "R" ELSE t[i]]
W4(t) == [i \in 1..Len(t) |->
    IF 1 < i /\ i < Len(t) /\ t[i - 1] = t[i + 1]
       /\ ((t[i - 1] = "EN" /\ t[i] \in {"ES", "CS"}) \/ (t[i - 1] = "AN" /\ t[i] = "CS"))
    THEN t[i - 1] ELSE t[i]]
EtAfterEn(t) == FoldLeft(LAMBDA a, x :                    \* ET that follow an EN
    Append(a, IF x = "ET" /\ a # <<>> /\ Last(a) = "EN" THEN "EN" ELSE x), <<>>, t)
W5(t) == Reverse(EtAfterEn(Reverse(EtAfterEn(t))))
W6(t) == [i \in 1..Len(t) |-> IF t[i] \in {"ES", "ET", "CS"} THEN "ON" ELSE t[i]]
W7(t, sos) == Lookback(t, sos, "L", "L")
Weak(t, sos) == W7(W6(W5(W4(W3(W2(W1(t, sos), sos))))), sos)

(* ------------------------------ brackets: N0 --------------------------------- *)
\* BD16; bk: bracket codes of the sequence
Pairs(t, bk) ==
    LET r == FoldLeftDomain(LAMBDA a, i :
               IF a.stop \/ bk[i] = 0 \/ t[i] # "ON" THEN a
               ELSE IF bk[i] > 0
               THEN IF Len(a.stk) = MaxPairs THEN [a EXCEPT !.stop = TRUE]
                    ELSE [a EXCEPT !.stk = Append(@, i)]
               ELSE LET at == FoldLeftDomain(LAMBDA f, j : IF bk[a.stk[j]] = - bk[i] THEN j ELSE f, 0, a.stk)
                    IN IF at = 0 THEN a
                       ELSE [a EXCEPT !.pairs = @ \cup {<<a.stk[at], i>>}, !.stk = SubSeq(@, 1, at - 1)],
               [stk |-> <<>>, pairs |-> {}, stop |-> FALSE], t)
    IN SortSeq(SetToSeq(r.pairs), LAMBDA p, q : p[1] < q[1])
AsStrong(x) == IF x = "L" THEN "L" ELSE IF x \in {"R", "EN", "AN"} THEN "R" ELSE "none"
\* one pair; nsm: which characters of the sequence were NSM originally
Bracket(t, nsm, sos, e, p) ==
    LET inside == {AsStrong(t[i]) : i \in (p[1] + 1)..(p[2] - 1)} \ {"none"}
        ctx == FoldLeft(LAMBDA a, x : IF AsStrong(x) = "none" THEN a ELSE AsStrong(x), sos, SubSeq(t, 1, p[1] - 1))
        o   == IF e = "L" THEN "R" ELSE "L"
        d   == IF e \in inside THEN e ELSE IF o \in inside /\ ctx = o THEN o ELSE e
        run == FoldLeftDomain(LAMBDA a, i : Append(a, i \in {p[1], p[2]} \/ (i > 1 /\ nsm[i] /\ a[i - 1])), <<>>, t)
    IN IF inside = {} THEN t
       ELSE [i \in 1..Len(t) |-> IF run[i] THEN d ELSE t[i]]
N0(t, bk, nsm, sos, e) == FoldLeft(LAMBDA a, p : Bracket(a, nsm, sos, e, p), t, Pairs(t, bk))

(* ------------------------- neutrals and implicit levels ---------------------- *)
N1N2(t, sos, eos, e) ==
    LET left  == FoldLeft(LAMBDA a, x : Append(a, IF x \in NI THEN Last(a) ELSE AsStrong(x)), <<sos>>, t)
        right == Reverse(FoldLeft(LAMBDA a, x : Append(a, IF x \in NI THEN Last(a) ELSE AsStrong(x)), <<eos>>, Reverse(t)))
    \* left[i]: direction before t[i] .. ; right[i + 1]: direction after t[i]
    IN [i \in 1..Len(t) |-> IF t[i] \notin NI THEN t[i]
                            ELSE IF left[i] = right[i + 1] THEN left[i] ELSE e]
Implicit(l, x) ==
    IF l % 2 = 0 THEN IF x = "R" THEN l + 1 ELSE IF x \in {"AN", "EN"} THEN l + 2 ELSE l
    ELSE IF x \in {"L", "AN", "EN"} THEN l + 1 ELSE l

ResolveSeq(c, b, m, pl, x, s) ==
    LET sos == Sos(x.lev, pl, s)
        eos == Eos(c, m, x.lev, pl, s)
        e   == DirOf(x.lev[s[1]])
        t0  == [i \in 1..Len(s) |-> x.typ[s[i]]]
        bk  == [i \in 1..Len(s) |-> b[s[i]]]
        nsm == [i \in 1..Len(s) |-> c[s[i]] = "NSM"]
    IN N1N2(N0(Weak(t0, sos), bk, nsm, sos, e), sos, eos, e)
\* levels of a paragraph after I1 and I2; -1 where X9 removes
Resolve(c, b, pl) ==
    LET m == MatchTab(c)
        x == Explicit(c, m, pl)
    IN FoldLeft(LAMBDA lv, s :
         LET t == ResolveSeq(c, b, m, pl, x, s)
         IN FoldLeftDomain(LAMBDA a, i : [a EXCEPT ![s[i]] = Implicit(@, t[i])], lv, s),
         x.lev, Sequences(c, m, x.lev))

(* ------------------------------ lines: L1, L2 -------------------------------- *)
\* levels of the line from..to, given the levels of its paragraph
LineLevels(c, lev, pl, from, to) ==
    LET n == to - from + 1
        r == FoldLeft(LAMBDA a, k :            \* right to left; reset: resetting run of blanks
               LET i == to + 1 - k
               IN IF lev[i] = -1 THEN [a EXCEPT !.o = Append(@, -1)]
                  ELSE IF c[i] \in {"S", "B"} THEN [reset |-> TRUE, o |-> Append(a.o, pl)]
                  ELSE IF c[i] \in {"WS", "PDI"} \cup Initiator
                  THEN [a EXCEPT !.o = Append(@, IF a.reset THEN pl ELSE lev[i])]
                  ELSE [reset |-> FALSE, o |-> Append(a.o, lev[i])],
               [reset |-> TRUE, o |-> <<>>], [k \in 1..(IF n > 0 THEN n ELSE 0) |-> k])
    IN Reverse(r.o)
\* L2 as a procedure: ll are line levels; the visual order as a sequence of positions
RevRuns(v, ll, l) ==                            \* reverse every maximal run at level >= l
    LET r == FoldLeft(LAMBDA a, p : IF ll[p] >= l THEN [a EXCEPT !.run = <<p>> \o @]
                                    ELSE [o |-> Append(a.o \o a.run, p), run |-> <<>>],
                      [o |-> <<>>, run |-> <<>>], v)
    IN r.o \o r.run
Reorder(ll) ==
    LET v0  == SelectSeq([i \in 1..Len(ll) |-> i], LAMBDA i : ll[i] # -1)
        top == FoldLeft(LAMBDA a, l : Max2(a, l), 0, ll)
    IN FoldLeft(LAMBDA v, k : RevRuns(v, ll, top + 1 - k), v0, [k \in 1..top |-> k])
\* L4: mirror(i) is used at odd levels only
=============================================================================
