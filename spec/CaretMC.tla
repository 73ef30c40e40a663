------------------------------ MODULE CaretMC -------------------------------
(***************************************************************************)
(* The caret commands on every document of a bounded size: TLC grows every *)
(* document, checks the properties of the design on it, and prints what    *)
(* each command has to do from each selection of it.                       *)
(***************************************************************************)
EXTENDS Caret, TLC, Json

CONSTANTS Mode, ShapeSet, MaxNodes

T(w, h) == Shape("table", w, h)
Shapes ==
    CASE ShapeSet = "all"   -> FixedShapes \cup {T(1, 1), T(2, 1), T(1, 2), T(2, 2)}
      [] ShapeSet = "fixed" -> FixedShapes
      [] ShapeSet = "mixed" -> {Shape("frac", 1, 2), Shape("sup", 1, 1), T(2, 2)}
      [] ShapeSet = "two"   -> {Shape("root", 2, 1), Shape("sub", 1, 1)}
      [] ShapeSet = "tables" -> {T(1, 1), T(2, 1), T(1, 2), T(2, 2), T(3, 2), T(2, 3), T(3, 3)}
      [] ShapeSet = "long" -> {T(1, 4), T(4, 1), T(1, 5), T(2, 4), T(4, 2), T(5, 3)}

VARIABLE tree
Empties(s) == Box(s.k, s.w, [q \in 1..(s.w * s.h) |-> <<>>])
GrowNodes == {Sym("x")} \cup {Empties(s) : s \in Shapes}
PathsOf(t) == RangeOf(AllRows(t))
Init == tree = <<>>
Next == /\ Size(tree) < MaxNodes
        /\ \E p \in PathsOf(tree) : \E o \in 0..Len(RowAt(tree, p)) : \E n \in GrowNodes :
              tree' = Apply(tree, RowIns(p, o, <<n>>))
Spec == Init /\ [][Next]_tree

Emit(r) == PrintT("CASE " \o ToJson(r))
Places(t) == RangeOf(DocOrder(t))
RangesOf(t) == UNION {{[p |-> p, a |-> a, b |-> b] : a \in 0..Len(RowAt(t, p)), b \in 0..Len(RowAt(t, p))} : p \in PathsOf(t)}
Directions == {"left", "right", "up", "down"}
Reached(t) ==  \* the row selections with the ends they come from
    {x \in {[s |-> s, e |-> e, sel |-> Selection(t, s, e)] : s \in Places(t), e \in Places(t)} : x.sel.g = "row"}
(* only drags whose ends lie in the selected row itself *)
Direct(t) == {[s |-> Pos(r.p, r.a), e |-> Pos(r.p, r.b), sel |-> RowSel(r)]
                : r \in {q \in RangesOf(t) : Selection(t, Pos(q.p, q.a), Pos(q.p, q.b)).g = "row"}}

Steps(t, x, runs) == Emit([op |-> "steps", tree |-> t, s |-> x.s, e |-> x.e, sel |-> x.sel, runs |-> runs])
MoveRun(t, x, d) == [cmd |-> [c |-> "move", d |-> d], as |-> "", tree |-> t, sel |-> Arrow(t, x.sel, d)]

(* ------------------------------ horizontal ----------------------------- *)
(* Left and right are the predecessor and the successor in document order *)
HorizontalOk(t) ==
    LET d == DocOrder(t)
        F(i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE NoPos
    IN \A i \in DOMAIN d : StepRight(t, d[i]) = F(i + 1) /\ StepLeft(t, d[i]) = F(i - 1)
HorizontalCases(t) ==
    /\ Emit([op |-> "walk", tree |-> t, doc |-> DocOrder(t)])
    /\ \A x \in Reached(t) : Steps(t, x, <<MoveRun(t, x, "left"), MoveRun(t, x, "right")>>)

(* ------------------------------- vertical ------------------------------ *)
(* described without the recursion: the innermost enclosing cell that has a *)
(* neighbour above (below), or a script to leave that way                   *)
VerticalOk(t) ==
    \A q \in Places(t) : \A d \in {"up", "down"} :
        LET dy == IF d = "up" THEN 0 - 1 ELSE 1
            Cell(k) == q.p[k]
            Node(k) == RowAt(t, SubSeq(q.p, 1, k - 1))[Cell(k)[1] + 1]
            Leaves1(k) == (Node(k).k = "sub" /\ d = "down") \/ (Node(k).k = "sup" /\ d = "up")
            Has(k) == Leaves1(k) \/ (Cell(k)[2] + dy * Node(k).w) \in 0..(Len(Node(k).c) - 1)
            ks == {k \in 1..Len(q.p) : Has(k)}
            m == Step(t, q, d)
        IN IF ks = {} THEN m = NoPos
           ELSE LET k == SetMax(ks) IN
                IF Leaves1(k) THEN m = Pos(SubSeq(q.p, 1, k - 1), Cell(k)[1])
                ELSE LET to == Append(SubSeq(q.p, 1, k - 1), <<Cell(k)[1], Cell(k)[2] + dy * Node(k).w>>)
                     IN m = Pos(to, IF d = "up" THEN Len(RowAt(t, to)) ELSE 0)
VerticalCases(t) == \A x \in Reached(t) : Steps(t, x, <<MoveRun(t, x, "up"), MoveRun(t, x, "down")>>)

(* ------------------------------ inserting ------------------------------ *)
New == <<Sym("N"), Box("sup", 1, <<<<Sym("O")>>>>)>>
InsertCases(t) ==
    \A x \in Reached(t) :
        LET R(cmd, vals) == LET y == InsertAt(t, x.sel, vals) IN [cmd |-> cmd, as |-> "", tree |-> y.tree, sel |-> y.sel]
        IN Steps(t, x, <<R([c |-> "type", v |-> <<"N">>], <<Sym("N")>>),
                         R([c |-> "type", v |-> <<"N", "O">>], <<Sym("N"), Sym("O")>>),
                         R([c |-> "type", v |-> <<>>], <<>>),
                         R([c |-> "paste", nodes |-> New], New),
                         R([c |-> "paste", nodes |-> <<>>], <<>>)>>)
InsertOk(t) ==
    \A x \in Direct(t) :
        LET y == InsertAt(t, x.sel, New) IN
        /\ WellFormed(y.tree) /\ ValidPos(y.tree, Pos(y.sel.p, y.sel.a))
        /\ Size(y.tree) = Size(t) + Size(New) - Size(Slice(RowAt(t, x.sel.p), Min2(x.sel.a, x.sel.b), Max2(x.sel.a, x.sel.b)))

(* ------------------------------- removing ------------------------------ *)
RemoveRun(t, x, mode) ==
    LET y == RemoveAt(t, x.sel, mode)
    IN [cmd |-> [c |-> "remove", m |-> mode],
        as |-> IF y.kind = "move" THEN mode ELSE "",   \* as the arrow key does
        tree |-> y.tree, sel |-> y.sel]
RemoveCases(t) == \A x \in Reached(t) : Steps(t, x, <<RemoveRun(t, x, "left"), RemoveRun(t, x, "right"), RemoveRun(t, x, "range")>>)

RECURSIVE IsSubsequence(_, _)
IsSubsequence(a, b) ==
    IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
    ELSE IF a[1] = b[1] THEN IsSubsequence(Tail(a), Tail(b)) ELSE IsSubsequence(a, Tail(b))
(* removing without a selection keeps every symbol, or drops the adjacent one *)
RemoveOk(t) ==
    \A x \in Direct(t) : \A mode \in {"left", "right", "range"} :
        LET y == RemoveAt(t, x.sel, mode)
            old == Leaves(t)
            new == Leaves(y.tree)
        IN /\ WellFormed(y.tree) /\ NoEmptyGrid(y.tree)
           /\ ValidPos(y.tree, Pos(y.sel.p, y.sel.a))
           /\ y.kind # "edit" => y.tree = t
           /\ IsSubsequence(new, old)
           /\ x.sel.a = x.sel.b =>
                \/ new = old
                \/ Len(new) = Len(old) - 1 /\ Size(y.tree) = Size(t) - 1
           (* the caret ends between what was before and after it *)
           /\ (y.kind = "edit" /\ x.sel.a = x.sel.b) =>
                LET Before(tt, s) == Cardinality({i \in DOMAIN DocOrder(tt) : LET q == DocOrder(tt)[i] IN
                                        q.o > 0 /\ IsSym(RowAt(tt, q.p)[q.o]) /\ CmpFast(q, Pos(s.p, s.a)) <= 0})
                    gone == IF Len(new) < Len(old) /\ mode = "left" THEN 1 ELSE 0
                IN Before(y.tree, y.sel) = Before(t, x.sel) - gone

(* ------------------------------ selecting ------------------------------ *)
DragCases(t) ==
    LET d == DocOrder(t)
        n == Len(d)
        Sel(i) == [j \in DOMAIN d |-> Selection(t, d[i], d[j])]
    IN \A i \in DOMAIN d :
        Emit([op |-> "drag", tree |-> t, s |-> d[i], ends |-> d, sels |-> Sel(i), all |-> RowSel([p |-> <<>>, a |-> 0, b |-> Len(t)])])
(* only the drags that select a rectangle of cells *)
RectCases(t) ==
    LET d == DocOrder(t) IN
    \A i \in DOMAIN d :
        LET ends == SelectSeq(d, LAMBDA q : Selection(t, d[i], q).g = "grid")
        IN ends # <<>> => Emit([op |-> "rect", tree |-> t, s |-> d[i], ends |-> ends, sels |-> [j \in DOMAIN ends |-> Selection(t, d[i], ends[j])]])
(* the rectangle holds both cells, and every smaller one lacks one of them *)
RectOk(t) ==
    \A s, e \in Places(t) :
        LET x == Selection(t, s, e)
            L == Len(x.p) + 1
            w == RowAt(t, x.p)[x.i + 1].w
            In(q, x0, y0, x1, y1) == LET c == q.p[L][2] IN c % w \in x0..x1 /\ c \div w \in y0..y1
        IN x.g = "grid" =>
             /\ s.p[L][1] = x.i /\ e.p[L][1] = x.i
             /\ In(s, x.x0, x.y0, x.x1, x.y1) /\ In(e, x.x0, x.y0, x.x1, x.y1)
             /\ \A k \in {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>} :
                    ~(In(s, x.x0 + k[1], x.y0 + k[2], x.x1 - k[3], x.y1 - k[4]) /\ In(e, x.x0 + k[1], x.y0 + k[2], x.x1 - k[3], x.y1 - k[4]))
(* extending with the arrow keys: the selection between the start of the drag
   and the place the arrow key reaches from the moving end *)
ExtendCases(t) ==
    \A x \in Reached(t) :
        LET Run(dir) ==
              LET m == Step(t, Pos(x.sel.p, x.sel.b), dir)
              IN [d |-> dir, at |-> Pos(x.sel.p, x.sel.b), to |-> m,
                  sel |-> IF m = NoPos THEN x.sel ELSE Selection(t, x.s, m)]
        IN Emit([op |-> "extend", tree |-> t, s |-> x.s, e |-> x.e, sel |-> x.sel,
                 runs |-> <<Run("left"), Run("right"), Run("up"), Run("down")>>])

(* ------------------------------- copying ------------------------------- *)
CopyCases(t) ==
    \A x \in Reached(t) :
        LET vals == Slice(RowAt(t, x.sel.p), Min2(x.sel.a, x.sel.b), Max2(x.sel.a, x.sel.b))
            d == DocOrder(t)
            direct == x.s.p = x.sel.p /\ x.e.p = x.sel.p
        IN Emit([op |-> "copy", tree |-> t, s |-> x.s, e |-> x.e, sel |-> x.sel, vals |-> vals,
                 pastes |-> IF direct THEN [i \in DOMAIN d |-> [at |-> d[i], tree |-> Splice(t, d[i].p, d[i].o, d[i].o, vals)]] ELSE <<>>])

Facet ==
    LET t == Named(tree) IN
    CASE Mode = "horizontal" -> HorizontalOk(t) /\ HorizontalCases(t)
      [] Mode = "vertical"   -> VerticalOk(t) /\ VerticalCases(t)
      [] Mode = "insert"     -> InsertOk(t) /\ InsertCases(t)
      [] Mode = "remove"     -> RemoveOk(t) /\ RemoveCases(t)
      [] Mode = "drag"       -> DragCases(t) /\ ExtendCases(t)
      [] Mode = "rect"       -> RectOk(t) /\ RectCases(t)
      [] Mode = "copy"       -> CopyCases(t)
TypeOk == WellFormed(tree) /\ NoEmptyGrid(tree)
=============================================================================
