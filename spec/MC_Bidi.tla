------------------------------- MODULE MC_Bidi ------------------------------
(* Model-checking instance of the bidirectional algorithm: texts grow by one   *)
(* character; the procedures of Bidi.tla are compared with the definitions of  *)
(* the annex and with properties that every result must have.                  *)
EXTENDS Bidi, Long
CONSTANTS Alphabet, N
\* a character of the alphabet: a class name, "(" or ")", "[" or "]"
VARIABLE s
ClassOf(x) == IF x \in {"(", ")", "[", "]"} THEN "ON" ELSE x
CodeOf(x)  == CASE x = "(" -> 1 [] x = ")" -> -1 [] x = "[" -> 2 [] x = "]" -> -2 [] OTHER -> 0
c == [i \in 1..Len(s) |-> ClassOf(s[i])]
b == [i \in 1..Len(s) |-> CodeOf(s[i])]
Single == \A i \in 1..(Len(s) - 1) : s[i] # "B"          \* one paragraph
Init == s = <<>>
Next == Len(s) < N /\ (IF s = <<>> THEN TRUE ELSE Last(s) # "B") /\ \E x \in Alphabet : s' = Append(s, x)
Spec == Init /\ [][Next]_s
\* a separator only ends a text
NextLong == \E w \in Longer(s, Alphabet \ {"B"}, N) : s' = w \/ ("B" \in Alphabet /\ s' = Append(w, "B"))
SpecLong == Init /\ [][NextLong]_s

Pos == 1..Len(s)
M   == MatchTab(c)
(* BD9: the matching PDI, by counting *)
Counting(i) ==
    LET bal(j) == Cardinality({k \in (i + 1)..j : c[k] \in Initiator}) - Cardinality({k \in (i + 1)..j : c[k] = "PDI"})
        ok == {j \in (i + 1)..Len(s) : c[j] = "PDI" /\ bal(j) = -1}
    IN IF ok = {} THEN Len(s) + 1 ELSE CHOOSE j \in ok : \A k \in ok : j <= k
MatchAgrees == \A i \in Pos : M[i] = IF c[i] \in Initiator THEN Counting(i) ELSE 0
(* P2: no initiator before the strong character encloses it *)
FirstStrongAgrees ==
    LET cand == {j \in Pos : c[j] \in Strong /\ \A i \in 1..(j - 1) : M[i] < j}
    IN FirstStrong(c, M, 1, Len(s)) =
       IF cand = {} THEN "none" ELSE c[CHOOSE j \in cand : \A k \in cand : j <= k]

Levels == {0, 1}
X(pl) == Explicit(c, M, pl)
ExplicitSane == \A pl \in Levels :
    LET x == X(pl)
    IN /\ \A i \in Pos : (x.lev[i] = -1) = (c[i] \in Removed)
       /\ \A i \in Pos : x.lev[i] \in -1..MaxDepth /\ (x.lev[i] # -1 => x.lev[i] >= pl)
       /\ Len(x.stk) <= MaxDepth + 2
       /\ x.vi = Cardinality({k \in 1..Len(x.stk) : x.stk[k].iso})
       /\ x.oi + x.vi = Cardinality({i \in Pos : c[i] \in Initiator /\ M[i] > Len(s)})
       /\ \A i \in Pos : c[i] = "B" => x.lev[i] = pl
       \* an initiator and its matching PDI are on the same level
       /\ \A i \in Pos : c[i] \in Initiator /\ M[i] <= Len(s) => x.lev[i] = x.lev[M[i]]
(* BD13, literally: level runs, chained at matching PDIs *)
Runs(lev) == LET k == Kept(lev)
             IN FoldLeft(LAMBDA a, p : IF a # <<>> /\ lev[Last(Last(a))] = lev[p]
                                       THEN Append(Front(a), Append(Last(a), p)) ELSE Append(a, <<p>>), <<>>, k)
RECURSIVE Chain(_, _)
Chain(rs, r) ==
    LET z == Last(r)
        nxt == {k \in 1..Len(rs) : c[z] \in Initiator /\ M[z] <= Len(s) /\ rs[k][1] = M[z]}
    IN IF nxt = {} THEN r ELSE r \o Chain(rs, rs[CHOOSE k \in nxt : TRUE])
MatchedPDI(i) == c[i] = "PDI" /\ \E j \in Pos : M[j] = i
BD13Agrees == \A pl \in Levels :
    LET lev == X(pl).lev
        rs == Runs(lev)
        starts == {k \in 1..Len(rs) : ~MatchedPDI(rs[k][1])}
        declared == {Chain(rs, rs[k]) : k \in starts}
        got == Sequences(c, M, lev)
    IN /\ \A k \in 1..Len(got) : \A i, j \in 1..Len(got[k]) : i < j => got[k][i] < got[k][j]
       /\ ToSet(got) = declared
       /\ Len(got) = Cardinality(declared)
       \* every kept character is in exactly one sequence
       /\ \A i \in Pos : lev[i] # -1 => Cardinality({<<k, j>> \in (1..Len(got)) \X Pos : j <= Len(got[k]) /\ got[k][j] = i}) = 1

Res(pl) == Resolve(c, b, pl)
LevelsSane == \A pl \in Levels :
    LET r == Res(pl) x == X(pl)
    IN \A i \in Pos : /\ (r[i] = -1) = (c[i] \in Removed)
                      /\ r[i] # -1 => r[i] \in x.lev[i]..(x.lev[i] + 2) /\ r[i] <= MaxDepth + 1
                      /\ c[i] = "L" /\ x.typ[i] = "L" => r[i] % 2 = 0
                      /\ c[i] \in {"R", "AL"} /\ x.typ[i] \in {"R", "AL"} => r[i] % 2 = 1
(* characters removed by X9 other than the controls that act in X1-X8 have no effect *)
Without(i, q) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
BNInert == \A pl \in Levels : \A i \in Pos : c[i] = "BN" =>
    Resolve(Without(i, c), Without(i, b), pl) = Without(i, Res(pl))
(* what is in an isolate does not matter outside of it and vice versa *)
IsolatesIsolate == \A pl \in Levels : \A i \in Pos :
    (c[i] \in {"LRI", "RLI"} /\ M[i] > i + 1 /\ M[i] <= Len(s) /\ X(pl).lev[i] < MaxDepth - 1) =>
        LET cut(q) == SubSeq(q, 1, i) \o SubSeq(q, M[i], Len(q))
        IN Resolve(cut(c), cut(b), pl) = cut(Res(pl))

(* brackets: no pair crosses another one, both ends are of one kind *)
PairsSane == \A pl \in Levels :
    LET lev == X(pl).lev
    IN \A k \in 1..Len(Sequences(c, M, lev)) :
        LET sq == Sequences(c, M, lev)[k]
            t  == Weak([i \in 1..Len(sq) |-> X(pl).typ[sq[i]]], Sos(lev, pl, sq))
            ps == ToSet(Pairs(t, [i \in 1..Len(sq) |-> b[sq[i]]]))
        IN \A p, q \in ps : /\ p[1] < p[2] /\ b[sq[p[1]]] = - b[sq[p[2]]] /\ b[sq[p[1]]] > 0
                            /\ p # q => {p[1], p[2]} \cap {q[1], q[2]} = {}
                            /\ ~(p[1] < q[1] /\ q[1] < p[2] /\ p[2] < q[2])

(* W1-W7, each by its wording: a character and its neighbourhood in the sequence *)
Seqs(pl) == LET lev == X(pl).lev IN Sequences(c, M, lev)
LastStrong(t, i, sos) ==                 \* last strong type before i
    LET js == {j \in 1..(i - 1) : t[j] \in Strong}
    IN IF js = {} THEN sos ELSE t[CHOOSE j \in js : \A k \in js : k <= j]
NearEN(t, i) ==                          \* the run of ET around i touches an EN
    \/ \E j \in 1..(i - 1) : t[j] = "EN" /\ \A k \in (j + 1)..(i - 1) : t[k] = "ET"
    \/ \E j \in (i + 1)..Len(t) : t[j] = "EN" /\ \A k \in (i + 1)..(j - 1) : t[k] = "ET"
WeakAgrees == \A pl \in Levels : \A q \in 1..Len(Seqs(pl)) :
    LET sq  == Seqs(pl)[q]
        sos == Sos(X(pl).lev, pl, sq)
        t0  == [i \in 1..Len(sq) |-> X(pl).typ[sq[i]]]
        t1 == W1(t0, sos) t2 == W2(t1, sos) t3 == W3(t2) t4 == W4(t3) t5 == W5(t4) t6 == W6(t5) t7 == W7(t6, sos)
    IN \A i \in 1..Len(sq) :
       /\ t1[i] = IF t0[i] # "NSM" THEN t0[i]
                  ELSE LET js == {j \in 1..(i - 1) : t0[j] # "NSM"}
                       IN IF js = {} THEN sos
                          ELSE LET j == CHOOSE j \in js : \A k \in js : k <= j
                               IN IF t0[j] \in Initiator \cup {"PDI"} THEN "ON" ELSE t0[j]
       /\ t2[i] = IF t1[i] = "EN" /\ LastStrong(t1, i, sos) = "AL" THEN "AN" ELSE t1[i]
       /\ t3[i] = IF t2[i] = "AL" THEN "R" ELSE t2[i]
       /\ t4[i] = IF t3[i] \in {"ES", "CS"} /\ i > 1 /\ i < Len(sq) /\ t3[i - 1] = "EN" /\ t3[i + 1] = "EN" THEN "EN"
                  ELSE IF t3[i] = "CS" /\ i > 1 /\ i < Len(sq) /\ t3[i - 1] = "AN" /\ t3[i + 1] = "AN" THEN "AN" ELSE t3[i]
       /\ t5[i] = IF t4[i] = "ET" /\ NearEN(t4, i) THEN "EN" ELSE t4[i]
       /\ t6[i] = IF t5[i] \in {"ES", "ET", "CS"} THEN "ON" ELSE t5[i]
       /\ t7[i] = IF t6[i] = "EN" /\ LastStrong(t6, i, sos) = "L" THEN "L" ELSE t6[i]
       /\ t7 = Weak(t0, sos)
       /\ t7[i] \in {"L", "R", "AN", "EN"} \cup NI
(* N1, N2 by their wording: a run of NIs takes the direction of the text around it *)
NeutralsAgree == \A pl \in Levels : \A q \in 1..Len(Seqs(pl)) :
    LET sq  == Seqs(pl)[q]
        lev == X(pl).lev
        sos == Sos(lev, pl, sq)
        eos == Eos(c, M, lev, pl, sq)
        e   == DirOf(lev[sq[1]])
        t0  == [i \in 1..Len(sq) |-> X(pl).typ[sq[i]]]
        t   == N0(Weak(t0, sos), [i \in 1..Len(sq) |-> b[sq[i]]], [i \in 1..Len(sq) |-> c[sq[i]] = "NSM"], sos, e)
        r   == N1N2(t, sos, eos, e)
        lo(i) == CHOOSE j \in 0..(i - 1) : (j = 0 \/ t[j] \notin NI) /\ \A k \in (j + 1)..i : t[k] \in NI
        hi(i) == CHOOSE j \in (i + 1)..(Len(sq) + 1) : (j = Len(sq) + 1 \/ t[j] \notin NI) /\ \A k \in i..(j - 1) : t[k] \in NI
        dirat(j) == IF j = 0 THEN sos ELSE IF j = Len(sq) + 1 THEN eos ELSE IF t[j] = "L" THEN "L" ELSE "R"
    IN \A i \in 1..Len(sq) :
         r[i] = IF t[i] \notin NI THEN t[i] ELSE IF dirat(lo(i)) = dirat(hi(i)) THEN dirat(lo(i)) ELSE e
(* BD16: until the stack overflows, a closing bracket pairs with the last open one
   of its kind that is not enclosed in a pair closed since *)
PairsAgree == \A pl \in Levels : \A q \in 1..Len(Seqs(pl)) :
    LET sq == Seqs(pl)[q]
        t  == Weak([i \in 1..Len(sq) |-> X(pl).typ[sq[i]]], Sos(X(pl).lev, pl, sq))
        bk == [i \in 1..Len(sq) |-> IF t[i] = "ON" THEN b[sq[i]] ELSE 0]
        ps == ToSet(Pairs(t, bk))
        open(i) == {j \in 1..(i - 1) : bk[j] > 0 /\ ~\E p \in ps : p[2] < i /\ p[1] <= j /\ j <= p[2]}
        over == {i \in 1..Len(sq) : bk[i] > 0 /\ Cardinality(open(i)) >= MaxPairs}
        live(i) == \A k \in over : i < k
    IN /\ \A p \in ps : live(p[2]) /\ p[1] \in open(p[2]) /\ bk[p[1]] = - bk[p[2]]
       /\ \A i \in 1..Len(sq) : bk[i] < 0 /\ live(i) /\ (\E j \in open(i) : bk[j] = - bk[i]) =>
            \E p \in ps : p[2] = i /\ \A j \in open(i) : bk[j] = - bk[i] => j <= p[1]
(* N0 can only change brackets and the NSMs behind them; a paired bracket and its
   partner resolve to the same direction *)
BracketsAgree == \A pl \in Levels : \A q \in 1..Len(Seqs(pl)) :
    LET sq  == Seqs(pl)[q]
        sos == Sos(X(pl).lev, pl, sq)
        e   == DirOf(X(pl).lev[sq[1]])
        t   == Weak([i \in 1..Len(sq) |-> X(pl).typ[sq[i]]], sos)
        bk  == [i \in 1..Len(sq) |-> b[sq[i]]]
        r   == N0(t, bk, [i \in 1..Len(sq) |-> c[sq[i]] = "NSM"], sos, e)
        ps  == ToSet(Pairs(t, bk))
        ends == {p[1] : p \in ps} \cup {p[2] : p \in ps}
        isnsm(i) == c[sq[i]] = "NSM" /\ \E j \in ends : j < i /\ \A k \in (j + 1)..i : c[sq[k]] = "NSM"
        \* N0 b and c, seen from the result: inner pairs come later, so inside of a
        \* pair only what is no bracket of a later pair was already strong
        strongIn(p) == {AsStrong(r[i]) : i \in (p[1] + 1)..(p[2] - 1)} \ {"none"}
    IN /\ \A i \in 1..Len(sq) : r[i] # t[i] => i \in ends \/ isnsm(i)
       /\ \A p \in ps : r[p[1]] = r[p[2]]
       /\ \A p \in ps : strongIn(p) = {} => r[p[1]] = t[p[1]]
       /\ \A p \in ps : (\E i \in (p[1] + 1)..(p[2] - 1) : AsStrong(t[i]) = e) => r[p[1]] = e

(* L1: against its wording, for every line *)
Blank(i) == c[i] \in {"WS", "PDI"} \cup Initiator
LineAgrees == \A pl \in Levels : \A from \in Pos : \A to \in from..Len(s) :
    LET r == Res(pl) ll == LineLevels(c, r, pl, from, to)
        between(i, j) == \A k \in (i + 1)..(j - 1) : r[k] = -1 \/ Blank(k)
        reset(i) == \/ c[i] \in {"S", "B"}
                    \/ Blank(i) /\ \E j \in (i + 1)..(to + 1) : between(i, j) /\ (j = to + 1 \/ c[j] \in {"S", "B"})
    IN /\ Len(ll) = to - from + 1
       /\ \A i \in from..to : ll[i - from + 1] = IF r[i] = -1 THEN -1 ELSE IF reset(i) THEN pl ELSE r[i]
(* L1 on the whole paragraph first and on the line then is the same as on the line *)
LineTwice == \A pl \in Levels : \A from \in Pos : \A to \in from..Len(s) :
    LET r == Res(pl) IN LineLevels(c, LineLevels(c, r, pl, 1, Len(s)), pl, from, to) = LineLevels(c, r, pl, from, to)
(* L2: the result is a permutation, right-to-left runs read backwards, and which of
   two characters comes first is decided by the lowest level between them *)
ReorderAgrees == \A pl \in Levels :
    LET ll == LineLevels(c, Res(pl), pl, 1, Len(s))
        v == Reorder(ll)
        at(p) == CHOOSE k \in 1..Len(v) : v[k] = p
        kept == {p \in Pos : ll[p] # -1}
        low(p, q) == CHOOSE l \in {ll[k] : k \in {j \in kept : p <= j /\ j <= q}} : \A k \in {j \in kept : p <= j /\ j <= q} : l <= ll[k]
    IN /\ ToSet(v) = kept /\ Len(v) = Cardinality(kept)
       /\ \A p, q \in kept : p < q => ((at(p) < at(q)) = (low(p, q) % 2 = 0))
=============================================================================
