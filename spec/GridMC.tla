------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* Bare grids: cell numbers, coordinates, steps, and the rectangle spanned  *)
(* by two cells.  A state is one grid size (and one pair of cells); TLC     *)
(* explores all of them up to MaxW x MaxH, checks the design and prints     *)
(* the replay cases.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Mode, MaxW, MaxH

VARIABLES w, h, a, b
vars == <<w, h, a, b>>

X(i) == i % w
Y(i) == i \div w
Num(x, y) == y * w + x
Inside(x, y) == x >= 0 /\ x < w /\ y >= 0 /\ y < h
Mn(p, q) == IF p < q THEN p ELSE q
Mx(p, q) == IF p < q THEN q ELSE p
Emit(r) == PrintT("CASE " \o ToJson(r))

(* Mode "index" and "rect": all sizes up to MaxW x MaxH and all cells;      *)
(* "bigindex" and "bigrect": some big sizes, and some cells of each         *)
Big == {s \in {<<255, 2>>, <<2, 255>>, <<256, 1>>, <<1, 256>>, <<256, 3>>, <<3, 256>>, <<257, 2>>, <<2, 257>>, <<16, 16>>, <<17, 31>>,
                <<100, 100>>, <<127, 129>>, <<300, 300>>, <<65536, 1>>, <<1, 65536>>, <<65537, 2>>, <<2, 65537>>, <<32768, 3>>, <<512, 129>>}
        : s[1] * s[2] <= MaxW * MaxH}
Some(k) == {i \in {0, 1, k \div 2, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, k - 2, k - 1} : i >= 0 /\ i < k}
SomeCells == {y * w + x : x \in {0, w \div 2, w - 1} \cup (IF w > 256 THEN {255, 256} ELSE {}), y \in {0, h \div 3, h - 1} \cup (IF h > 256 THEN {255, 256} ELSE {})}
IsBig == Mode \in {"bigindex", "bigrect"}
IsIndex == Mode \in {"index", "bigindex"}
Init == /\ IF IsBig THEN \E s \in Big : w = s[1] /\ h = s[2]
           ELSE w \in 1..MaxW /\ h \in 0..MaxH
        /\ IF IsIndex THEN a = 0 /\ b = 0
           ELSE IF IsBig THEN a \in SomeCells /\ b \in SomeCells
           ELSE h > 0 /\ a \in 0..(w * h - 1) /\ b \in 0..(w * h - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* design: numbers and coordinates are in bijection, row-major *)
NumbersAndCoordinates ==
    /\ \A i \in 0..(w * h - 1) : Num(X(i), Y(i)) = i /\ Inside(X(i), Y(i))
    /\ \A x \in 0..(w - 1), y \in 0..(h - 1) : LET i == Num(x, y) IN i \in 0..(w * h - 1) /\ X(i) = x /\ Y(i) = y

Cell(x, y, ww) == IF ww = w /\ Inside(x, y) THEN <<Num(x, y)>> ELSE <<>>
SmallProbes == {[x |-> x, y |-> y, w |-> ww, cell |-> Cell(x, y, ww)] : x \in 0..(w + 1), y \in 0..(h + 1), ww \in {w, w + 1}}
          \cup (IF w > 1 THEN {[x |-> x, y |-> 0, w |-> w - 1, cell |-> <<>>] : x \in 0..(w - 1)} ELSE {})
BigProbes == {[x |-> x, y |-> y, w |-> ww, cell |-> Cell(x, y, ww)] : x \in Some(w) \cup {w, w + 1}, y \in Some(h) \cup {h, h + 1}, ww \in {w}}
             \cup {[x |-> x, y |-> 0, w |-> ww, cell |-> <<>>] : x \in {0, w - 1}, ww \in {w - 1, w + 1, w + 256} \ {0}}
Probes == IF IsBig THEN BigProbes ELSE SmallProbes
Cells == IF IsBig THEN {i \in Some(w * h) \cup {w - 1, w, w + 1} \cup SomeCells : i < w * h} ELSE 0..(w * h - 1)
(* coordinates, numbers and distances far outside any grid; they stand for
   the machine's biggest numbers: see `far` in harness/tree *)
Far == {2000000001, 2000000002, 2000000003}
FarProbes == {[x |-> f, y |-> 0, w |-> w, cell |-> <<>>] : f \in Far} \cup {[x |-> 0, y |-> f, w |-> w, cell |-> <<>>] : f \in Far}
             \cup {[x |-> f, y |-> f, w |-> w, cell |-> <<>>] : f \in Far} \cup {[x |-> 0, y |-> 0, w |-> f, cell |-> <<>>] : f \in Far}
FarDeltas == UNION {{<<f, 0>>, <<0, f>>, <<f, f>>, <<0 - f, 0>>, <<0, 0 - f>>} : f \in Far}
Step(i, dx, dy) ==
    [x |-> X(i), y |-> Y(i), dx |-> dx, dy |-> dy,
     to |-> IF Inside(X(i) + dx, Y(i) + dy) THEN <<<<X(i) + dx, Y(i) + dy>>>> ELSE <<>>]
BigDeltas == IF ~IsBig THEN {} ELSE UNION {{<<d, 0>>, <<0, d>>, <<d, d>>, <<0 - d, 0>>, <<0, 0 - d>>} : d \in {255, 256, 257, w - 1, w, h - 1, h} \ {0}}
Deltas == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<0, 2>>, <<1, 1>>, <<-1, 0>>, <<0, -1>>, <<-2, 0>>, <<0, -2>>, <<-1, -1>>}

IndexCase ==
    Emit([op |-> "gridindex", w |-> w, h |-> h,
          coords |-> SetToSeq({<<i, X(i), Y(i)>> : i \in Cells}),
          absent |-> <<w * h, w * h + 1, w * h + w, w * h + w + 1>> \o SetToSeq(Far),
          probes |-> SetToSeq(Probes \cup FarProbes),
          steps |-> SetToSeq({Step(i, d[1], d[2]) : i \in (IF IsBig THEN SomeCells ELSE Cells), d \in Deltas \cup BigDeltas \cup FarDeltas})])

x0 == Mn(X(a), X(b))   x1 == Mx(X(a), X(b))
y0 == Mn(Y(a), Y(b))   y1 == Mx(Y(a), Y(b))
rw == x1 - x0 + 1
rh == y1 - y0 + 1
RectCells == [q \in 1..(rw * rh) |-> Num(x0 + ((q - 1) % rw), y0 + ((q - 1) \div rw))]
(* the cells a view of the rectangle shows: [column, row, cell] *)
ViewCells == {<<x, y, Num(x0 + x, y0 + y)>> : x \in (IF IsBig THEN Some(rw) ELSE 0..(rw - 1)), y \in (IF IsBig THEN Some(rh) ELSE 0..(rh - 1))}
InRect(i) == X(i) >= x0 /\ X(i) <= x1 /\ Y(i) >= y0 /\ Y(i) <= y1
(* design: the rectangle has both cells in it, and no smaller one does *)
RectOk ==
    /\ InRect(a) /\ InRect(b)
    /\ {RectCells[q] : q \in DOMAIN RectCells} = {i \in 0..(w * h - 1) : InRect(i)}
    /\ \A u0, u1 \in 0..(w - 1), v0, v1 \in 0..(h - 1) :
         (u0 <= Mn(X(a), X(b)) /\ Mx(X(a), X(b)) <= u1 /\ v0 <= Mn(Y(a), Y(b)) /\ Mx(Y(a), Y(b)) <= v1)
            => (u0 <= x0 /\ x1 <= u1 /\ v0 <= y0 /\ y1 <= v1)
RectCase ==
    Emit([op |-> "gridrect", cells |-> SetToSeq(ViewCells), w |-> w, h |-> h, a |-> a, b |-> b,
          expect |-> [x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1, w |-> rw, h |-> rh, empty |-> FALSE, viewEmpty |-> FALSE,
                      viewW |-> rw, viewH |-> rh, outside |-> 0]])

Facet == CASE Mode = "index" -> NumbersAndCoordinates /\ IndexCase
           [] Mode = "rect" -> RectOk /\ RectCase
           [] Mode = "bigindex" -> IndexCase
           [] Mode = "bigrect" -> RectCase
=============================================================================
