----------------------------- MODULE InputTree -----------------------------
(***************************************************************************)
(* The data of the editor: documents, addresses, positions, edits, and     *)
(* what the edits, the position tracking, the order of positions, the      *)
(* selection of two positions, the addressing and the text form mean.      *)
(*                                                                         *)
(* A document is a row; a row is a sequence of nodes; a node is a record   *)
(*    [k |-> kind, v |-> label, w |-> width, c |-> cells]                  *)
(* with kind "sym" (v is its text, no cells) or a container kind whose     *)
(* cells are rows, stored row-major in a grid of width w.                  *)
(* An address (path) is a sequence of <<node index, cell index>> pairs,    *)
(* zero based as in the implementation; a position is [p |-> path,         *)
(* o |-> offset], an offset lying between the nodes of a row.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"frac", "root", "sup", "sub", "table"}

Sym(t) == [k |-> "sym", v |-> t, w |-> 0, c |-> <<>>]
Box(kind, width, cells) == [k |-> kind, v |-> "", w |-> width, c |-> cells]
IsSym(n) == n.k = "sym"
Height(n) == IF n.w = 0 THEN 0 ELSE Len(n.c) \div n.w

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RangeOf(s) == {s[i] : i \in DOMAIN s}
Slice(s, a, b) == SubSeq(s, a + 1, b)         \* zero based, end exclusive
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

(* ------------------------- well formed documents ----------------------- *)
ArityOk(n) ==
    CASE n.k = "frac"  -> n.w = 1 /\ Len(n.c) = 2
      [] n.k = "root"  -> n.w = 2 /\ Len(n.c) = 2
      [] n.k = "sup"   -> n.w = 1 /\ Len(n.c) = 1
      [] n.k = "sub"   -> n.w = 1 /\ Len(n.c) = 1
      [] n.k = "table" -> n.w > 0 /\ Len(n.c) % n.w = 0
      [] OTHER -> FALSE

RECURSIVE WellFormed(_)
WellFormed(row) ==
    \A i \in DOMAIN row :
        \/ IsSym(row[i]) /\ row[i].c = <<>>
        \/ ~IsSym(row[i]) /\ ArityOk(row[i]) /\ \A j \in DOMAIN row[i].c : WellFormed(row[i].c[j])

(* every container has at least one cell *)
RECURSIVE NoEmptyGrid(_)
NoEmptyGrid(row) ==
    \A i \in DOMAIN row :
        IsSym(row[i]) \/ (row[i].c # <<>> /\ \A j \in DOMAIN row[i].c : NoEmptyGrid(row[i].c[j]))

RECURSIVE Size(_)
Size(row) ==
    IF row = <<>> THEN 0
    ELSE LET RECURSIVE Cells(_)
             Cells(cs) == IF cs = <<>> THEN 0 ELSE Size(cs[1]) + Cells(Tail(cs))
         IN 1 + Cells(row[1].c) + Size(Tail(row))

RECURSIVE Depth(_)
Depth(row) ==
    IF row = <<>> THEN 0
    ELSE LET inner == {0} \cup UNION {{1 + Depth(row[i].c[j]) : j \in DOMAIN row[i].c} : i \in DOMAIN row}
         IN SetMax(inner)

(* the symbols of a document, in reading order *)
RECURSIVE Leaves(_)
Leaves(row) ==
    IF row = <<>> THEN <<>>
    ELSE (IF IsSym(row[1]) THEN <<row[1].v>>
          ELSE Concat([j \in DOMAIN row[1].c |-> Leaves(row[1].c[j])]))
         \o Leaves(Tail(row))

(* ------------------------------ addresses ------------------------------ *)
RECURSIVE ValidPath(_, _)
ValidPath(row, path) ==
    IF path = <<>> THEN TRUE
    ELSE /\ path[1][1] >= 0 /\ path[1][1] < Len(row)
         /\ path[1][2] >= 0 /\ path[1][2] < Len(row[path[1][1] + 1].c)
         /\ ValidPath(row[path[1][1] + 1].c[path[1][2] + 1], Tail(path))

RECURSIVE RowAt(_, _)
RowAt(row, path) ==
    IF path = <<>> THEN row
    ELSE RowAt(row[path[1][1] + 1].c[path[1][2] + 1], Tail(path))

RECURSIVE WithRow(_, _, _)
WithRow(row, path, new) ==
    IF path = <<>> THEN new
    ELSE LET i == path[1][1] + 1
             j == path[1][2] + 1
         IN [row EXCEPT ![i].c[j] = WithRow(row[i].c[j], Tail(path), new)]

RECURSIVE RowsBelow(_, _)
(* the addresses of all rows of the document, in reading order *)
RowsBelow(row, pre) ==
    <<pre>> \o Concat([i \in DOMAIN row |->
        Concat([j \in DOMAIN row[i].c |-> RowsBelow(row[i].c[j], Append(pre, <<i - 1, j - 1>>))])])
AllRows(tree) == RowsBelow(tree, <<>>)

ValidPos(tree, q) == ValidPath(tree, q.p) /\ q.o >= 0 /\ q.o <= Len(RowAt(tree, q.p))

(* ----------------- document order: a depth first walk ------------------ *)
RECURSIVE Doc(_, _)
Doc(row, pre) ==
    LET RECURSIVE From(_)
        From(i) ==  \* what comes after offset i-1 of this row
            IF i > Len(row) THEN <<>>
            ELSE Concat([j \in DOMAIN row[i].c |-> Doc(row[i].c[j], Append(pre, <<i - 1, j - 1>>))])
                 \o <<[p |-> pre, o |-> i]>> \o From(i + 1)
    IN <<[p |-> pre, o |-> 0]>> \o From(1)

DocOrder(tree) == Doc(tree, <<>>)
IndexIn(doc, q) == CHOOSE i \in DOMAIN doc : doc[i] = q
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpPos(tree, a, b) == LET d == DocOrder(tree) IN Sign(IndexIn(d, a) - IndexIn(d, b))

(* The same order without building the walk: the code's algorithm.  MC     *)
(* checks that both agree.                                                 *)
RECURSIVE SeqCmp(_, _)
SeqCmp(a, b) ==
    IF a = <<>> \/ b = <<>> THEN Sign(Len(a) - Len(b))
    ELSE IF a[1][1] # b[1][1] THEN Sign(a[1][1] - b[1][1])
    ELSE IF a[1][2] # b[1][2] THEN Sign(a[1][2] - b[1][2])
    ELSE SeqCmp(Tail(a), Tail(b))
CmpFast(a, b) ==
    LET m == Min2(Len(a.p), Len(b.p))
        c == SeqCmp(SubSeq(a.p, 1, m), SubSeq(b.p, 1, m))
        x == IF Len(a.p) > m THEN 2 * a.p[m + 1][1] + 1 ELSE 2 * a.o
        y == IF Len(b.p) > m THEN 2 * b.p[m + 1][1] + 1 ELSE 2 * b.o
    IN IF c # 0 THEN c ELSE Sign(x - y)

(* -------------------------------- edits -------------------------------- *)
(* row edit:  [g |-> "row", ty |-> "ins"|"del", p, o, vals]                 *)
(* grid edit: [g |-> "grid", ty, p, i (node index), dir |-> "row"|"col",    *)
(*             at, w (width of the cells), cells]                           *)
IsRowEdit(e) == e.g = "row"

RowEditOk(tree, e) ==
    /\ ValidPath(tree, e.p)
    /\ LET row == RowAt(tree, e.p) IN
       /\ e.o >= 0 /\ e.o <= Len(row)
       /\ e.ty = "del" => e.o + Len(e.vals) <= Len(row) /\ Slice(row, e.o, e.o + Len(e.vals)) = e.vals

ApplyRow(tree, e) ==
    LET row == RowAt(tree, e.p)
        new == IF e.ty = "ins" THEN Slice(row, 0, e.o) \o e.vals \o Slice(row, e.o, Len(row))
               ELSE Slice(row, 0, e.o) \o Slice(row, e.o + Len(e.vals), Len(row))
    IN WithRow(tree, e.p, new)

CellXY(n, x, y) == n.c[y * n.w + x + 1]
EditW(e) == e.w
EditH(e) == Len(e.cells) \div e.w

(* the cell numbers of the `count` rows / columns starting at `at` *)
InBand(n, e, idx) ==
    IF e.dir = "row" THEN (idx \div n.w) >= e.at /\ (idx \div n.w) < e.at + EditH(e)
    ELSE (idx % n.w) >= e.at /\ (idx % n.w) < e.at + EditW(e)

BandCells(n, e) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i >= Len(n.c) THEN <<>>
                 ELSE (IF InBand(n, e, i) THEN <<n.c[i + 1]>> ELSE <<>>) \o Go(i + 1)
    IN Go(0)

GridEditOk(tree, e) ==
    /\ ValidPath(tree, e.p)
    /\ LET row == RowAt(tree, e.p) IN
       /\ e.i >= 0 /\ e.i < Len(row)
       /\ LET n == row[e.i + 1] IN
          /\ n.k = "table"
          /\ e.w > 0 /\ Len(e.cells) % e.w = 0
          /\ e.dir = "row" => e.w = n.w
          /\ e.dir = "col" => EditH(e) = Height(n)
          /\ e.at >= 0
          /\ LET size == IF e.dir = "row" THEN Height(n) ELSE n.w
                 count == IF e.dir = "row" THEN EditH(e) ELSE EditW(e)
             IN IF e.ty = "ins" THEN e.at <= size
                ELSE /\ e.at + count <= size
                     /\ e.dir = "col" => count < n.w      \* a grid has at least one column
                     /\ BandCells(n, e) = e.cells

GridNode(n, e) ==
    LET nw == IF e.dir = "col" THEN (IF e.ty = "ins" THEN n.w + EditW(e) ELSE n.w - EditW(e)) ELSE n.w
        nh == IF e.dir = "row" THEN (IF e.ty = "ins" THEN Height(n) + EditH(e) ELSE Height(n) - EditH(e)) ELSE Height(n)
        Src(x, y) ==
            IF e.ty = "ins" /\ e.dir = "row" THEN
                (IF y < e.at THEN CellXY(n, x, y)
                 ELSE IF y < e.at + EditH(e) THEN e.cells[(y - e.at) * e.w + x + 1]
                 ELSE CellXY(n, x, y - EditH(e)))
            ELSE IF e.ty = "ins" THEN
                (IF x < e.at THEN CellXY(n, x, y)
                 ELSE IF x < e.at + EditW(e) THEN e.cells[y * e.w + (x - e.at) + 1]
                 ELSE CellXY(n, x - EditW(e), y))
            ELSE IF e.dir = "row" THEN
                (IF y < e.at THEN CellXY(n, x, y) ELSE CellXY(n, x, y + EditH(e)))
            ELSE
                (IF x < e.at THEN CellXY(n, x, y) ELSE CellXY(n, x + EditW(e), y))
    IN [n EXCEPT !.w = nw, !.c = [q \in 1..(nw * nh) |-> Src((q - 1) % nw, (q - 1) \div nw)]]

ApplyGrid(tree, e) ==
    LET row == RowAt(tree, e.p)
    IN WithRow(tree, e.p, [row EXCEPT ![e.i + 1] = GridNode(row[e.i + 1], e)])

EditOk(tree, e) == IF IsRowEdit(e) THEN RowEditOk(tree, e) ELSE GridEditOk(tree, e)
Apply(tree, e) == IF IsRowEdit(e) THEN ApplyRow(tree, e) ELSE ApplyGrid(tree, e)
Flip(ty) == IF ty = "ins" THEN "del" ELSE "ins"
Inverse(e) == [e EXCEPT !.ty = Flip(e.ty)]

RECURSIVE ApplyAll(_, _)
ApplyAll(tree, es) == IF es = <<>> THEN tree ELSE ApplyAll(Apply(tree, es[1]), Tail(es))
RECURSIVE AllOk(_, _)
AllOk(tree, es) == es = <<>> \/ (EditOk(tree, es[1]) /\ AllOk(Apply(tree, es[1]), Tail(es)))
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
InverseAll(es) == [i \in DOMAIN es |-> Inverse(es[Len(es) + 1 - i])]

RowIns(p, o, vals) == [g |-> "row", ty |-> "ins", p |-> p, o |-> o, vals |-> vals]
RowDel(p, o, vals) == [g |-> "row", ty |-> "del", p |-> p, o |-> o, vals |-> vals]

(* replacing the nodes a..b (offsets) of row p by vals *)
Splice(tree, p, a, b, vals) ==
    LET row == RowAt(tree, p)
    IN WithRow(tree, p, Slice(row, 0, a) \o vals \o Slice(row, b, Len(row)))

(* -------------- tracking positions and ranges through edits ------------ *)
(* side "L": the left edge of a range, or a caret position (stays in front  *)
(* of content inserted right there); side "R": the right edge of a range.   *)
(* how many nodes: the nodes themselves do not matter here, so observations  *)
(* of big edits give only the number                                        *)
Count(e) == IF "n" \in DOMAIN e THEN e.n ELSE Len(e.vals)
TrackOffset(o, e, side) ==
    LET n == Count(e) IN
    IF e.ty = "ins"
    THEN IF o < e.o \/ (o = e.o /\ side = "L") THEN o ELSE o + n
    ELSE IF o <= e.o THEN o ELSE Max2(o - n, e.o)

(* Moves an address through a row edit; "dead" when its row was deleted.    *)
TrackPath(path, e) ==
    IF ~IsPrefixOf(e.p, path) \/ Len(path) = Len(e.p) THEN [dead |-> FALSE, p |-> path]
    ELSE LET L == Len(e.p) + 1
             i == path[L][1]
             n == Count(e)
         IN IF e.ty = "ins"
            THEN [dead |-> FALSE, p |-> IF i >= e.o THEN [path EXCEPT ![L] = <<i + n, path[L][2]>>] ELSE path]
            ELSE IF i >= e.o /\ i < e.o + n THEN [dead |-> TRUE, p |-> e.p]
            ELSE [dead |-> FALSE, p |-> IF i >= e.o + n THEN [path EXCEPT ![L] = <<i - n, path[L][2]>>] ELSE path]

TrackRange(r, e) ==    \* r: [p, a, b], a = start, b = end, either direction
    LET t == TrackPath(r.p, e)
        fwd == r.a <= r.b
        l == Min2(r.a, r.b)
        h == Max2(r.a, r.b)
        same == r.p = e.p
        l2 == IF same THEN TrackOffset(l, e, "L") ELSE l
        h2 == IF same THEN TrackOffset(h, e, "R") ELSE h
    IN IF t.dead THEN [p |-> e.p, a |-> e.o, b |-> e.o]
       ELSE [p |-> t.p, a |-> IF fwd THEN l2 ELSE h2, b |-> IF fwd THEN h2 ELSE l2]

TrackPos(q, e) == LET r == TrackRange([p |-> q.p, a |-> q.o, b |-> q.o], e) IN [p |-> r.p, o |-> r.a]

RECURSIVE TrackPosAll(_, _)
TrackPosAll(q, es) == IF es = <<>> THEN q ELSE TrackPosAll(TrackPos(q, es[1]), Tail(es))
RECURSIVE TrackRangeAll(_, _)
TrackRangeAll(r, es) == IF es = <<>> THEN r ELSE TrackRangeAll(TrackRange(r, es[1]), Tail(es))

(* ------------------- the range spanned by two positions ---------------- *)
RECURSIVE CommonPath(_, _)
CommonPath(a, b) ==
    IF a = <<>> \/ b = <<>> \/ a[1] # b[1] THEN <<>>
    ELSE <<a[1]>> \o CommonPath(Tail(a), Tail(b))

(* the innermost common row, and the outermost offsets of it that still     *)
(* have both positions between them                                        *)
Span(tree, s, e) ==
    LET p == CommonPath(s.p, e.p)
        fwd == CmpFast(s, e) <= 0
        lo == IF fwd THEN s ELSE e
        hi == IF fwd THEN e ELSE s
        offs == 0..Len(RowAt(tree, p))
        l == SetMax({o \in offs : CmpFast([p |-> p, o |-> o], lo) <= 0})
        h == SetMin({o \in offs : CmpFast([p |-> p, o |-> o], hi) >= 0})
    IN [p |-> p, a |-> IF fwd THEN l ELSE h, b |-> IF fwd THEN h ELSE l]

(* the same, without looking at the document; MC checks that both agree *)
SpanFast(s, e) ==
    LET p == CommonPath(s.p, e.p)
        m == Len(p)
        fwd == CmpFast(s, e) <= 0
        lo == IF fwd THEN s ELSE e
        hi == IF fwd THEN e ELSE s
        l == IF Len(lo.p) > m THEN lo.p[m + 1][1] ELSE lo.o
        h == IF Len(hi.p) > m THEN hi.p[m + 1][1] + 1 ELSE hi.o
    IN [p |-> p, a |-> IF fwd THEN l ELSE h, b |-> IF fwd THEN h ELSE l]

InRange(r, q) ==
    /\ CmpFast([p |-> r.p, o |-> Min2(r.a, r.b)], q) <= 0
    /\ CmpFast(q, [p |-> r.p, o |-> Max2(r.a, r.b)]) <= 0

(* a selection: a range of a row, or a rectangle of cells of a table *)
RowSel(r) == [g |-> "row", p |-> r.p, a |-> r.a, b |-> r.b, i |-> 0, x0 |-> 0, y0 |-> 0, x1 |-> 0, y1 |-> 0]
GridSel(p, i, x0, y0, x1, y1) ==
    [g |-> "grid", p |-> p, a |-> 0, b |-> 0, i |-> i, x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1]

Selection(tree, s, e) ==
    LET r == Span(tree, s, e)
        L == Len(r.p) + 1
        l == Min2(r.a, r.b)
    IN IF /\ Max2(r.a, r.b) = l + 1
          /\ RowAt(tree, r.p)[l + 1].k = "table"
          /\ Len(s.p) >= L /\ Len(e.p) >= L
       THEN LET n == RowAt(tree, r.p)[l + 1]
                sx == s.p[L][2] % n.w   sy == s.p[L][2] \div n.w
                ex == e.p[L][2] % n.w   ey == e.p[L][2] \div n.w
            IN GridSel(r.p, l, Min2(sx, ex), Min2(sy, ey), Max2(sx, ex), Max2(sy, ey))
       ELSE RowSel(r)

(* ------------------------------ text form ------------------------------ *)
(* Texts are sequences of characters (one character strings).  Symbols     *)
(* carry their characters in `ch` here: see CharsOf in the users.          *)
Digit(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4"
              [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] d = 9 -> "9"
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Digit(n)>> ELSE Digits(n \div 10) \o <<Digit(n % 10)>>
KindChars(kind) ==
    CASE kind = "frac"  -> <<"f", "r", "a", "c">>
      [] kind = "root"  -> <<"r", "o", "o", "t">>
      [] kind = "sup"   -> <<"s", "u", "p">>
      [] kind = "sub"   -> <<"s", "u", "b">>
      [] kind = "table" -> <<"t", "a", "b", "l", "e">>
Escape(cs) ==
    Concat([i \in DOMAIN cs |-> IF cs[i] = "\"" \/ cs[i] = "\\" THEN <<"\\", cs[i]>> ELSE <<cs[i]>>])

(* v of a symbol is a sequence of characters in this section *)
RECURSIVE PrintRow(_)
PrintRow(row) ==
    LET PrintNode(n) ==
            IF IsSym(n) THEN <<"\"">> \o Escape(n.v) \o <<"\"">>
            ELSE <<"(">> \o KindChars(n.k) \o <<" ">> \o Digits(n.w) \o <<"x">> \o Digits(Height(n))
                 \o Concat([j \in DOMAIN n.c |-> <<" ">> \o PrintRow(n.c[j])]) \o <<")">>
    IN <<"(", "r", "o", "w">> \o Concat([i \in DOMAIN row |-> <<" ">> \o PrintNode(row[i])]) \o <<")">>

(* ------------------------ finite sets of documents ---------------------- *)
(* All documents with exactly n nodes, symbols from Labels, the container   *)
(* shapes from Shapes (records [k, w, h]).                                  *)
RECURSIVE RowsOf(_, _, _), CellsOf(_, _, _, _)
NodesOf(n, labels, shapes) ==      \* nodes whose total size is n >= 1
    (IF n = 1 THEN {Sym(t) : t \in labels} ELSE {})
    \cup UNION {{Box(s.k, s.w, cs) : cs \in CellsOf(s.w * s.h, n - 1, labels, shapes)} : s \in shapes}
CellsOf(count, n, labels, shapes) ==  \* sequences of `count` rows with n nodes in total
    IF count = 0 THEN (IF n = 0 THEN {<<>>} ELSE {})
    ELSE UNION {{<<r>> \o rest : r \in RowsOf(m, labels, shapes), rest \in CellsOf(count - 1, n - m, labels, shapes)}
                : m \in 0..n}
RowsOf(n, labels, shapes) ==
    IF n = 0 THEN {<<>>}
    ELSE UNION {{<<x>> \o rest : x \in NodesOf(m, labels, shapes), rest \in RowsOf(n - m, labels, shapes)}
                : m \in 1..n}
Documents(maxNodes, labels, shapes) == UNION {RowsOf(n, labels, shapes) : n \in 0..maxNodes}

(* the same shape with every symbol given a name of its own (reading order) *)
Names == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p">>
RECURSIVE RelabelRow(_, _), RelabelCells(_, _)
RelabelRow(row, n) ==
    IF row = <<>> THEN <<>>
    ELSE <<IF IsSym(row[1]) THEN Sym(Names[n]) ELSE [row[1] EXCEPT !.c = RelabelCells(row[1].c, n + 1)]>>
         \o RelabelRow(Tail(row), n + Size(<<row[1]>>))
RelabelCells(cs, n) ==
    IF cs = <<>> THEN <<>> ELSE <<RelabelRow(cs[1], n)>> \o RelabelCells(Tail(cs), n + Size(cs[1]))
Named(row) == RelabelRow(row, 1)
NamedDocuments(maxNodes, shapes) == {Named(r) : r \in Documents(maxNodes, {"x"}, shapes)}

Shape(kind, w, h) == [k |-> kind, w |-> w, h |-> h]
FixedShapes == {Shape("frac", 1, 2), Shape("root", 2, 1), Shape("sup", 1, 1), Shape("sub", 1, 1)}
=============================================================================
