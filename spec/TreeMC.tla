------------------------------- MODULE TreeMC -------------------------------
(***************************************************************************)
(* The document state machine: a document grows and changes by edits.      *)
(* TLC explores every document (up to MaxNodes nodes over the container    *)
(* shapes Shapes) and every edit of a palette in every place of it, checks  *)
(* the properties of the design on each of them, and prints each explored   *)
(* state or transition as a replay case for the implementation: the call    *)
(* and the result the specification demands.                                *)
(***************************************************************************)
EXTENDS InputTree, TLC, Json, SequencesExt

CONSTANTS Mode,        \* which property family: see Facet
          ShapeSet,    \* name of the set of container shapes
          MaxNodes,    \* documents with at most this many nodes
          MaxLog       \* edits per sequence (Mode = "undo")

T(w, h) == Shape("table", w, h)
Shapes ==
    CASE ShapeSet = "all"   -> FixedShapes \cup {T(1, 1), T(2, 1), T(1, 2), T(2, 2)}
      [] ShapeSet = "mixed" -> {Shape("frac", 1, 2), Shape("sup", 1, 1), T(2, 2)}
      [] ShapeSet = "two"   -> {Shape("frac", 1, 2), Shape("sub", 1, 1)}
      [] ShapeSet = "one"   -> {Shape("sup", 1, 1)}
      [] ShapeSet = "fixed" -> FixedShapes
      [] ShapeSet = "tables" -> {T(1, 1), T(2, 1), T(1, 2), T(2, 2), T(3, 2), T(2, 3), T(1, 3), T(3, 1)}
      [] ShapeSet = "table" -> {T(2, 2), T(3, 2)}

VARIABLES tree, log, orig
vars == <<tree, log, orig>>

Empties(s) == Box(s.k, s.w, [q \in 1..(s.w * s.h) |-> <<>>])
GrowNodes == {Sym("x")} \cup {Empties(s) : s \in Shapes}
PathsOf(t) == RangeOf(AllRows(t))
PositionsOf(t) == UNION {{[p |-> p, o |-> o] : o \in 0..Len(RowAt(t, p))} : p \in PathsOf(t)}
RangesOf(t) == UNION {{[p |-> p, a |-> a, b |-> b] : a \in 0..Len(RowAt(t, p)), b \in 0..Len(RowAt(t, p))} : p \in PathsOf(t)}

(* ------------------------------ edit palette --------------------------- *)
Palette == {<<>>, <<Sym("N")>>, <<Sym("N"), Sym("O")>>,
            <<Box("frac", 1, <<<<Sym("N")>>, <<>>>>)>>}
SmallPalette == {<<Sym("N")>>, <<Sym("O"), Box("sup", 1, <<<<>>>>)>>}
RowEditsOf(t, pal) ==
    UNION {{RowIns(p, o, vs) : o \in 0..Len(RowAt(t, p)), vs \in pal}
           \cup UNION {{RowDel(p, a, Slice(RowAt(t, p), a, b)) : b \in a..Len(RowAt(t, p))} : a \in 0..Len(RowAt(t, p))}
           : p \in PathsOf(t)}

Fill(n, base) == [q \in 1..n |-> <<Sym("N"), Sym(ToString(q))>>]
Tables(t) == UNION {{[p |-> p, i |-> i - 1, n |-> RowAt(t, p)[i]] : i \in {j \in 1..Len(RowAt(t, p)) : RowAt(t, p)[j].k = "table"}} : p \in PathsOf(t)}
GridEd(ty, x, dir, at, w, cells) == [g |-> "grid", ty |-> ty, p |-> x.p, i |-> x.i, dir |-> dir, at |-> at, w |-> w, cells |-> cells]
GridEditsOf(t, counts) ==
    UNION { LET n == x.n IN
            {GridEd("ins", x, "row", at, n.w, Fill(n.w * k, 0)) : at \in 0..Height(n), k \in counts}
       \cup {GridEd("ins", x, "col", at, k, Fill(k * Height(n), 0)) : at \in 0..n.w, k \in counts}
       \cup {e \in {LET e0 == GridEd("del", x, "row", at, n.w, [q \in 1..(n.w * k) |-> <<>>])
                    IN GridEd("del", x, "row", at, n.w, IF at + k <= Height(n) THEN BandCells(n, e0) ELSE <<>>)
                    : at \in 0..Height(n), k \in counts} : e.cells # <<>>}
       \cup {e \in {LET e0 == GridEd("del", x, "col", at, k, [q \in 1..(k * Height(n)) |-> <<>>])
                    IN GridEd("del", x, "col", at, k, IF at + k <= n.w THEN BandCells(n, e0) ELSE <<>>)
                    : at \in 0..n.w, k \in counts} : e.cells # <<>> /\ GridEditOk(t, e)}
          : x \in Tables(t)}

(* -------------------------------- cases -------------------------------- *)
Emit(r) == PrintT("CASE " \o ToJson(r))

EditCases(t, es) == \A e \in es : Emit([op |-> "edit", tree |-> t, edit |-> e, expect |-> Apply(t, e)])

TrackCases(t, es) ==
    LET qs == DocOrder(t)
        rs == SetToSeq(RangesOf(t))
    IN \A e \in es :
        Emit([op |-> "track", tree |-> t, edits |-> <<e>>, pos |-> qs, ranges |-> rs,
              expect |-> [pos |-> [i \in DOMAIN qs |-> TrackPos(qs[i], e)],
                          ranges |-> [i \in DOMAIN rs |-> TrackRange(rs[i], e)]]])

(* the edit builders: what they must describe, for every range of the document *)
MakeCases(t) ==
    \A r \in RangesOf(t) :
        LET a == Min2(r.a, r.b)
            b == Max2(r.a, r.b)
            new == <<Sym("N"), Box("sup", 1, <<<<Sym("O")>>>>)>>
        IN Emit([op |-> "make", tree |-> t, range |-> r, vals |-> new,
                 expect |-> [removed |-> Splice(t, r.p, a, b, <<>>), removedPos |-> [p |-> r.p, o |-> a],
                             inserted |-> Splice(t, r.p, a, a, new), insertedPos |-> [p |-> r.p, o |-> a + Len(new)],
                             replaced |-> Splice(t, r.p, a, b, new), replacedRange |-> [p |-> r.p, a |-> a, b |-> a + Len(new)],
                             values |-> Slice(RowAt(t, r.p), a, b)]])

OrderCase(t) == Emit([op |-> "order", tree |-> t, doc |-> DocOrder(t)])
SpanCase(t) ==
    LET d == DocOrder(t)
    IN Emit([op |-> "span", tree |-> t, doc |-> d,
             expect |-> [i \in DOMAIN d |-> [j \in DOMAIN d |-> Span(t, d[i], d[j])]]])
WalkCase(t) ==
    LET ps == AllRows(t)
    IN Emit([op |-> "walk", tree |-> t, paths |-> ps, rows |-> [i \in DOMAIN ps |-> RowAt(t, ps[i])]])

(* ------------------------- design level properties --------------------- *)
OrderOk(t) ==
    LET d == DocOrder(t) IN
    /\ RangeOf(d) = PositionsOf(t)                     \* every position occurs ...
    /\ Len(d) = Cardinality(PositionsOf(t))            \* ... exactly once
    /\ \A i, j \in DOMAIN d : CmpFast(d[i], d[j]) = Sign(i - j)

SpanOk(t) ==
    \A s, e \in PositionsOf(t) :
        LET r == Span(t, s, e) IN
        /\ r = SpanFast(s, e)
        /\ ValidPath(t, r.p) /\ {r.a, r.b} \subseteq 0..Len(RowAt(t, r.p))
        /\ InRange(r, s) /\ InRange(r, e)
        /\ Span(t, e, s) = (IF s = e THEN r ELSE [r EXCEPT !.a = r.b, !.b = r.a])
        /\ (r.a <= r.b) <=> (CmpFast(s, e) <= 0)
        \* no range of any row that encloses both is smaller
        /\ \A q \in RangesOf(t) :
               (InRange(q, s) /\ InRange(q, e)) =>
                   InRange(q, [p |-> r.p, o |-> r.a]) /\ InRange(q, [p |-> r.p, o |-> r.b])

TrackOk(t, e) ==
    LET t2 == Apply(t, e) IN
    /\ \A q \in PositionsOf(t) : ValidPos(t2, TrackPos(q, e))
    /\ \A r \in RangesOf(t) :
           LET x == TrackRange(r, e) IN
           /\ ValidPos(t2, [p |-> x.p, o |-> x.a]) /\ ValidPos(t2, [p |-> x.p, o |-> x.b])
           /\ (r.a <= r.b => x.a <= x.b) /\ (r.a > r.b => x.a >= x.b)
    \* tracking keeps the order of positions
    /\ \A q1, q2 \in PositionsOf(t) : CmpFast(q1, q2) <= 0 => CmpFast(TrackPos(q1, e), TrackPos(q2, e)) <= 0
    \* a position whose place is untouched comes back through the inverse edit
    /\ e.ty = "ins" => \A q \in PositionsOf(t) : TrackPos(TrackPos(q, e), Inverse(e)) = q
    \* every symbol of the document keeps its address (the position in front of it)
    /\ e.ty = "ins" =>
         \A q \in PositionsOf(t) :
            LET row == RowAt(t, q.p)
                q2 == TrackRange([p |-> q.p, a |-> q.o, b |-> q.o], e)
            IN q.o < Len(row) /\ IsSym(row[q.o + 1]) => RowAt(t2, q2.p)[q2.b + 1] = row[q.o + 1]

EditTheorem(t, e) ==
    LET t2 == Apply(t, e) IN
    /\ EditOk(t, e) /\ WellFormed(t2)
    /\ EditOk(t2, Inverse(e)) /\ Apply(t2, Inverse(e)) = t
    /\ Inverse(Inverse(e)) = e

(* ------------------------------ transitions ---------------------------- *)
Growths(t) ==
    UNION {{RowIns(p, o, <<n>>) : o \in 0..Len(RowAt(t, p)), n \in GrowNodes} : p \in PathsOf(t)}

Grow == /\ Mode # "undo"
        /\ Size(tree) < MaxNodes
        /\ \E e \in Growths(tree) : tree' = Apply(tree, e)
        /\ UNCHANGED <<log, orig>>

Change == /\ Mode = "undo"
          /\ Len(log) < MaxLog
          /\ \E e \in RowEditsOf(tree, SmallPalette) \cup GridEditsOf(tree, {1}) :
                /\ tree' = Apply(tree, e)
                /\ log' = Append(log, e)
                /\ UNCHANGED orig
                /\ Len(log') = MaxLog =>
                     Emit([op |-> "undo", tree |-> orig, edits |-> log', expect |-> tree'])

UndoDocs(n) == NamedDocuments(n, Shapes)
Init == IF Mode = "undo" THEN tree \in UndoDocs(MaxNodes) /\ orig = tree /\ log = <<>>
        ELSE tree = <<>> /\ log = <<>> /\ orig = <<>>
Next == Grow \/ Change
Spec == Init /\ [][Next]_vars

(* -------- what is checked (and emitted) for every reachable document ---- *)
Facet ==
    LET t == Named(tree) IN
    CASE Mode = "edit"  -> EditCases(t, RowEditsOf(t, Palette)) /\ MakeCases(t) /\ \A e \in RowEditsOf(t, Palette) : EditTheorem(t, e)
      [] Mode = "grid"  -> LET es == GridEditsOf(t, {1, 2}) IN EditCases(t, es) /\ \A e \in es : EditTheorem(t, e)
      [] Mode = "track" -> LET es == RowEditsOf(t, SmallPalette) IN TrackCases(t, es) /\ \A e \in es : TrackOk(t, e)
      [] Mode = "order" -> OrderOk(t) /\ OrderCase(t)
      [] Mode = "span"  -> SpanOk(t) /\ SpanCase(t)
      [] Mode = "walk"  -> WalkCase(t)
      [] Mode = "undo"  -> TRUE
TypeOk == WellFormed(tree)
(* undoing the whole history, newest edit first, gives back the document *)
UndoRestores == Mode = "undo" => ApplyAll(tree, InverseAll(log)) = orig /\ ApplyAll(orig, log) = tree
=============================================================================
