------------------------------- MODULE Caret --------------------------------
(***************************************************************************)
(* What the caret commands mean: moving, extending a selection, inserting  *)
(* and removing at the selection.  Everything here is a function of the    *)
(* document and the selection; the editor with its history is in Editor.   *)
(***************************************************************************)
EXTENDS InputTree

Pos(p, o) == [p |-> p, o |-> o]
NoPos == [p |-> <<>>, o |-> 0 - 1]
Collapsed(q) == RowSel([p |-> q.p, a |-> q.o, b |-> q.o])
IsCollapsed(sel) == sel.g = "row" /\ sel.a = sel.b

FrontOf(path) == SubSeq(path, 1, Len(path) - 1)
LastOf(path) == path[Len(path)]
(* the container whose cell the row `path` is *)
Around(t, path) == RowAt(t, FrontOf(path))[LastOf(path)[1] + 1]

(* ----------------------- one step left or right ------------------------ *)
StepRight(t, q) ==
    LET row == RowAt(t, q.p) IN
    IF q.o < Len(row)
    THEN IF IsSym(row[q.o + 1]) THEN Pos(q.p, q.o + 1) ELSE Pos(Append(q.p, <<q.o, 0>>), 0)
    ELSE IF q.p = <<>> THEN NoPos
    ELSE LET c == LastOf(q.p) IN
         IF c[2] + 1 < Len(Around(t, q.p).c) THEN Pos(Append(FrontOf(q.p), <<c[1], c[2] + 1>>), 0)
         ELSE Pos(FrontOf(q.p), c[1] + 1)

StepLeft(t, q) ==
    LET row == RowAt(t, q.p) IN
    IF q.o > 0
    THEN LET n == row[q.o] IN
         IF IsSym(n) THEN Pos(q.p, q.o - 1)
         ELSE Pos(Append(q.p, <<q.o - 1, Len(n.c) - 1>>), Len(n.c[Len(n.c)]))
    ELSE IF q.p = <<>> THEN NoPos
    ELSE LET c == LastOf(q.p) IN
         IF c[2] > 0
         THEN LET to == Append(FrontOf(q.p), <<c[1], c[2] - 1>>) IN Pos(to, Len(RowAt(t, to)))
         ELSE Pos(FrontOf(q.p), c[1])

(* ------------------------- one step up or down ------------------------- *)
RECURSIVE StepVertical(_, _, _)
StepVertical(t, q, d) ==
    IF q.p = <<>> THEN NoPos
    ELSE LET n == Around(t, q.p)
             c == LastOf(q.p)
             x == c[2] % n.w
             y == (c[2] \div n.w) + (IF d = "up" THEN 0 - 1 ELSE 1)
             to == Append(FrontOf(q.p), <<c[1], y * n.w + x>>)
         IN IF (n.k = "sub" /\ d = "down") \/ (n.k = "sup" /\ d = "up") THEN Pos(FrontOf(q.p), c[1])
            ELSE IF y >= 0 /\ y < Height(n) THEN Pos(to, IF d = "up" THEN Len(RowAt(t, to)) ELSE 0)
            ELSE StepVertical(t, Pos(FrontOf(q.p), 0), d)

Step(t, q, d) ==
    CASE d = "left" -> StepLeft(t, q)
      [] d = "right" -> StepRight(t, q)
      [] OTHER -> StepVertical(t, q, d)

(* the edge of a row selection a movement starts from *)
EdgeOf(sel, d) == Pos(sel.p, IF d \in {"left", "up"} THEN Min2(sel.a, sel.b) ELSE Max2(sel.a, sel.b))

(* where an arrow key takes a row selection; the selection itself if nowhere *)
Arrow(t, sel, d) ==
    LET m == Step(t, EdgeOf(sel, d), d)
    IN IF m # NoPos THEN Collapsed(m)
       ELSE IF sel.a # sel.b THEN Collapsed(EdgeOf(sel, d))
       ELSE sel

(* --------------------------- inserting there --------------------------- *)
InsertAt(t, sel, vals) ==
    LET l == Min2(sel.a, sel.b)
        h == Max2(sel.a, sel.b)
    IN [tree |-> Splice(t, sel.p, l, h, vals), sel |-> Collapsed(Pos(sel.p, l + Len(vals)))]

(* ---------------------------- removing there --------------------------- *)
Keep(t, sel) == [kind |-> "none", tree |-> t, sel |-> sel]
Moved(t, sel, d) == [kind |-> "move", tree |-> t, sel |-> Arrow(t, sel, d)]
Changed(t, q) == [kind |-> "edit", tree |-> t, sel |-> Collapsed(q)]

(* the container at index i of row p is replaced by the contents of its cells *)
Dissolve(t, p, i) == Splice(t, p, i, i + 1, Concat(RowAt(t, p)[i + 1].c))

RemoveAt(t, sel, mode) ==
    LET l == Min2(sel.a, sel.b)
        h == Max2(sel.a, sel.b)
        row == RowAt(t, sel.p)
        left == mode = "left"
    IN IF l # h THEN Changed(Splice(t, sel.p, l, h, <<>>), Pos(sel.p, l))
       ELSE IF mode = "range" THEN Keep(t, sel)
       ELSE IF (left /\ l > 0) \/ (~left /\ l < Len(row))
       THEN \* something of the same row is next to the caret
            LET i == IF left THEN l - 1 ELSE l
                n == row[i + 1]
            IN IF IsSym(n) THEN Changed(Splice(t, sel.p, i, i + 1, <<>>), Pos(sel.p, i))
               ELSE IF ~left /\ n.k \in {"sub", "sup"} THEN Changed(Dissolve(t, sel.p, i), Pos(sel.p, i))
               ELSE Moved(t, sel, mode)
       ELSE IF sel.p = <<>> THEN Keep(t, sel)
       ELSE \* at the start (end) of a cell
            LET n == Around(t, sel.p)
                up == FrontOf(sel.p)
                i == LastOf(sel.p)[1]
                j == LastOf(sel.p)[2]
                allEmpty == \A k \in DOMAIN n.c : n.c[k] = <<>>
                outer == IF left THEN j = 0 ELSE j = Len(n.c) - 1
            IN IF left /\ n.k \in {"sub", "sup"} THEN Changed(Dissolve(t, up, i), Pos(up, i))
               ELSE IF n.k \in {"frac", "root"} /\ ((left /\ j = 1) \/ (~left /\ j = 0))
               THEN Changed(Dissolve(t, up, i), Pos(up, i + Len(n.c[1])))
               ELSE IF outer /\ allEmpty THEN Changed(Dissolve(t, up, i), Pos(up, i))
               ELSE Moved(t, sel, mode)
=============================================================================
