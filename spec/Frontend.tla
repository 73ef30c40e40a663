------------------------------ MODULE Frontend ------------------------------
(***************************************************************************)
(* The page: what the frontend shows for a document, where on the page the  *)
(* places of the document are, what a click means.                          *)
(*                                                                         *)
(* A piece of the page is [t |-> tag, s |-> text, c |-> pieces in it,       *)
(* x, y, w, h |-> its box]. Besides the MathML tags there are "text" for a  *)
(* glyph, "empty" for the placeholder of an empty row and "missing" for the *)
(* mark of a missing operand.                                               *)
(***************************************************************************)
EXTENDS InputTree

(* --------------------------- what is shown ----------------------------- *)
RECURSIVE Pieces(_)
(* the document a piece of the page spells, leaving out spaces *)
Pieces(n) ==
    LET All(cs) == Concat([i \in DOMAIN cs |-> Pieces(cs[i])]) IN
    CASE n.t = "text"    -> IF n.s = " " THEN <<>> ELSE <<Sym(n.s)>>
      [] n.t \in {"empty", "missing"} -> <<>>
      [] n.t = "mfrac"   -> <<Box("frac", 1, <<Pieces(n.c[1]), Pieces(n.c[2])>>)>>
      [] n.t = "mroot"   -> <<Box("root", 2, <<Pieces(n.c[2]), Pieces(n.c[1])>>)>>
      [] n.t = "msup"    -> Pieces(n.c[1]) \o <<Box("sup", 1, <<Pieces(n.c[2])>>)>>
      [] n.t = "msub"    -> Pieces(n.c[1]) \o <<Box("sub", 1, <<Pieces(n.c[2])>>)>>
      [] n.t = "mtable"  -> <<Box("table", IF n.c = <<>> THEN 0 ELSE Len(n.c[1].c),
                                  Concat([i \in DOMAIN n.c |-> [j \in DOMAIN n.c[i].c |-> Pieces(n.c[i].c[j])]]))>>
      [] OTHER           -> All(n.c)
(* every element has the pieces its tag asks for *)
RECURSIVE PageOk(_)
PageOk(n) ==
    /\ \A i \in DOMAIN n.c : PageOk(n.c[i])
    /\ n.t \in {"mfrac", "mroot", "msup", "msub"} => Len(n.c) = 2
    /\ n.t = "mtable" => \A i \in DOMAIN n.c : n.c[i].t = "mtr" /\ Len(n.c[i].c) = Len(n.c[1].c)
    /\ n.t = "mtr" => \A i \in DOMAIN n.c : n.c[i].t = "mtd"

RECURSIVE Bare(_)
(* a document without its spaces; how wide an empty table is cannot be seen *)
Bare(row) ==
    LET Clean(n) == IF IsSym(n) THEN n
                    ELSE [n EXCEPT !.c = [j \in DOMAIN n.c |-> Bare(n.c[j])], !.w = IF n.c = <<>> THEN 0 ELSE @]
        kept == SelectSeq(row, LAMBDA n : ~(IsSym(n) /\ n.v = " "))
    IN [i \in DOMAIN kept |-> Clean(kept[i])]

(* the glyphs of the page in reading order: the index of a root is shown in
   front of what is under the root, but stands behind it in MathML *)
RECURSIVE Glyphs(_)
Glyphs(n) ==
    IF n.t \in {"text", "empty", "missing"} THEN <<n>>
    ELSE IF n.t = "mroot" /\ Len(n.c) = 2 THEN Glyphs(n.c[2]) \o Glyphs(n.c[1])
    ELSE Concat([i \in DOMAIN n.c |-> Glyphs(n.c[i])])
Texts(n) == SelectSeq(Glyphs(n), LAMBDA g : g.t = "text")

(* the symbols of a document with their addresses, in reading order *)
RECURSIVE Signs(_, _)
Signs(row, pre) ==
    Concat([i \in DOMAIN row |->
        IF IsSym(row[i]) THEN <<[v |-> row[i].v, p |-> pre, i |-> i - 1]>>
        ELSE Concat([j \in DOMAIN row[i].c |-> Signs(row[i].c[j], Append(pre, <<i - 1, j - 1>>))])])

RECURSIVE Marked(_, _)
Marked(n, t) == (IF n.t = t THEN 1 ELSE 0) + (LET RECURSIVE Sum(_)
                                                 Sum(cs) == IF cs = <<>> THEN 0 ELSE Marked(cs[1], t) + Sum(Tail(cs))
                                             IN Sum(n.c))

(* the pieces of the page that are rows of the document *)
RECURSIVE Cells(_)
Cells(n) ==
    (CASE n.t \in {"mfrac", "mroot"} -> <<n.c[1], n.c[2]>>
       [] n.t \in {"msup", "msub"} -> <<n.c[2]>>
       [] n.t \in {"mtd", "math"} -> <<n>>
       [] OTHER -> <<>>)
    \o Concat([i \in DOMAIN n.c |-> Cells(n.c[i])])

(* the page shows the document: all of it, in order, and nothing else; where
   a row is empty there is a placeholder *)
Shows(page, row) ==
    /\ PageOk(page)
    /\ Pieces(page) = Bare(row)
    /\ [i \in DOMAIN Texts(page) |-> Texts(page)[i].s] = Leaves(row)
    /\ \A c \in RangeOf(Cells(page)) :
           Pieces(c) = <<>> => Marked(c, "empty") + Marked(c, "missing") = 1 \/ Texts(c) # <<>>
    /\ Marked(page, "empty") <= Len(Cells(page))
(* and marks what is wrong with it *)
Admits(page, faults) ==
    /\ Marked(page, "missing") = Len(SelectSeq(faults, LAMBDA f : f = "missing"))
    /\ Marked(page, "merror") = Len(SelectSeq(faults, LAMBDA f : f = "unknown"))

(* --------------------------- where it is shown ------------------------- *)
(* lengths on the page are doubled, places can be in the middle of a glyph *)
Left(g) == 2 * g.x
Right(g) == 2 * (g.x + g.w)
Top(g) == 2 * g.y
Bottom(g) == 2 * (g.y + g.h)

(* is a sign in item k of row p, at any depth? *)
Within(sign, p, a, b) ==
    /\ IsPrefixOf(p, sign.p)
    /\ LET i == IF Len(sign.p) = Len(p) THEN sign.i ELSE sign.p[Len(p) + 1][1] IN i >= a /\ i < b
(* the glyphs of the items a..b-1 of row p *)
Of(signs, glyphs, p, a, b) == {glyphs[i] : i \in {j \in DOMAIN signs : Within(signs[j], p, a, b)}}

(* the box of the row at p, as the page gives it *)
BoxOf(v, p) == (CHOOSE i \in DOMAIN v.rows : v.rows[i].p = p)
(* a spot lies between what is in front of its place and what is behind it;
   the caret stands on a line inside its row *)
SpotOk(row, v, signs, glyphs, s) ==
    LET n == Len(RowAt(row, s.p))
        r == v.rows[BoxOf(v, s.p)]
    IN /\ \A g \in Of(signs, glyphs, s.p, 0, s.k) : Right(g) <= s.x
       /\ \A g \in Of(signs, glyphs, s.p, s.k, n) : s.x <= Left(g)
       /\ r.y <= s.y /\ s.y <= r.y + r.h
       /\ r.y <= s.base /\ s.base <= r.y + r.h
       /\ s.size > 0
(* a selection covers what it selects, from spot to spot *)
SelectionOk(row, signs, glyphs, spots, s) ==
    LET lo == Min2(s.a, s.b)
        hi == Max2(s.a, s.b)
        X(k) == (CHOOSE q \in spots : q.p = s.p /\ q.k = k).x
    IN /\ s.x = X(lo) /\ s.x + s.w = X(hi)
       /\ s.h >= 0
       /\ \A g \in Of(signs, glyphs, s.p, lo, hi) : s.y <= Top(g) /\ Bottom(g) <= s.y + s.h
       (* and is no higher than that, if there are only symbols in it *)
       /\ (lo < hi /\ \A i \in (lo + 1)..hi : IsSym(RowAt(row, s.p)[i])) =>
              LET gs == Of(signs, glyphs, s.p, lo, hi) IN
              /\ \E g \in gs : s.y = Top(g)
              /\ \E g \in gs : Bottom(g) = s.y + s.h
RowOk(row, signs, glyphs, r) ==
    \A g \in Of(signs, glyphs, r.p, 0, Len(RowAt(row, r.p))) :
        r.x <= Left(g) /\ Right(g) <= r.x + r.w /\ r.y <= Top(g) /\ Bottom(g) <= r.y + r.h
PlaceOk(row, q) == ValidPath(row, q.p) /\ q.k >= 0 /\ q.k <= Len(RowAt(row, q.p))
(* clicking a glyph goes to the nearer side of it, clicking an empty row goes
   into it, clicking outside of the formula goes to the nearest spot *)
Far(s, t) == (s.x - t.x) * (s.x - t.x) + (s.y - t.y) * (s.y - t.y)
Inside(l, t, r, b, q) == l < q.x /\ q.x < r /\ t < q.y /\ q.y < b
TapOk(row, v, signs, glyphs, t) ==
    /\ PlaceOk(row, t.at)
    /\ \A i \in {j \in DOMAIN signs : Inside(Left(glyphs[j]), Top(glyphs[j]), Right(glyphs[j]), Bottom(glyphs[j]), t)} :
        LET before == t.x - Left(glyphs[i])
            behind == Right(glyphs[i]) - t.x
            X(k) == (CHOOSE s \in RangeOf(v.spots) : s.p = signs[i].p /\ s.k = k).x
        IN /\ t.at.p = signs[i].p
           \* (symbols can be empty, then places lie on top of each other)
           /\ \/ t.at.k <= signs[i].i /\ X(t.at.k) = X(signs[i].i) /\ before <= behind + 2 * v.gap
              \/ t.at.k >= signs[i].i + 1 /\ X(t.at.k) = X(signs[i].i + 1) /\ behind <= before
    /\ \A i \in DOMAIN v.rows :
        LET r == v.rows[i] IN
        RowAt(row, r.p) = <<>> /\ Inside(r.x, r.y, r.x + r.w, r.y + r.h, t) => t.at = [p |-> r.p, k |-> 0]
    /\ LET r == v.rows[BoxOf(v, <<>>)] IN
       (v.gap = 0 /\ (t.x < r.x \/ t.x > r.x + r.w \/ t.y < r.y \/ t.y > r.y + r.h)) =>
       \E s \in RangeOf(v.spots) : [p |-> s.p, k |-> s.k] = t.at /\ \A o \in RangeOf(v.spots) : Far(s, t) <= Far(o, t)
Placed(row, v) ==
    LET signs == Signs(row, <<>>)
        glyphs == Texts(v.dom)
        spots == RangeOf(v.spots)
    IN /\ Len(signs) = Len(glyphs)
       /\ {[p |-> s.p, k |-> s.k] : s \in spots} =
              UNION {{[p |-> p, k |-> k] : k \in 0..Len(RowAt(row, p))} : p \in RangeOf(AllRows(row))}
       /\ \A s \in spots : SpotOk(row, v, signs, glyphs, s)
       /\ \A i \in DOMAIN v.sels : SelectionOk(row, signs, glyphs, spots, v.sels[i])
       /\ \A i \in DOMAIN v.rows : RowOk(row, signs, glyphs, v.rows[i])
       /\ \A i \in DOMAIN v.taps : TapOk(row, v, signs, glyphs, v.taps[i])

(* --------------------------- while it is edited ------------------------ *)
(* the caret is drawn at the end of the selection that moves; what is
   selected is covered by one box *)
Corners(sel) == UNION {{<<sel.i, j>>} : j \in {sel.a, Max2(sel.b - 1, sel.a)}}
Drawn(row, v) ==
    LET sel == v.mine.sel
        signs == Signs(row, <<>>)
        glyphs == Texts(v.dom)
        spots == RangeOf(v.spots)
        At(k) == CHOOSE q \in spots : q.p = sel.p /\ q.k = k
        c == v.carets[1]
        b == v.boxes[1]
    IN /\ Len(v.carets) = 1
       /\ IF sel.g = "row"
          THEN /\ c.shown /\ c.x = At(sel.b).x
               /\ c.h = 2 * At(sel.b).size /\ c.up = c.h
               /\ c.y - c.up <= At(sel.b).base /\ At(sel.b).base <= c.y
               /\ IF sel.a = sel.b THEN v.boxes = <<>>
                  ELSE /\ Len(v.boxes) = 1
                       /\ SelectionOk(row, signs, glyphs, spots, [p |-> sel.p, a |-> sel.a, b |-> sel.b, x |-> b.x, y |-> b.y, w |-> b.w, h |-> b.h])
          ELSE /\ ~c.shown /\ Len(v.boxes) = 1
               /\ \A cell \in Corners(sel) : \A k \in DOMAIN signs :
                    IsPrefixOf(Append(sel.p, cell), signs[k].p) =>
                        /\ b.x <= Left(glyphs[k]) /\ Right(glyphs[k]) <= b.x + b.w
                        /\ b.y <= Top(glyphs[k]) /\ Bottom(glyphs[k]) <= b.y + b.h
(* an event does what it stands for (twin: an editor that was told that), and
   the page keeps up *)
KeepsUp(twin, shown) ==
    /\ shown.ok
    /\ LET v == shown.v[1] IN
       /\ v.mine = twin
       /\ twin.carets = 1
       /\ Shows(v.dom, twin.row) /\ Admits(v.dom, v.dom.faults)
       /\ Drawn(twin.row, v)
=============================================================================
