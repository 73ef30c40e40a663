------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* The text form: documents over symbols that look like syntax, growing by  *)
(* insertion.  Checks that the text of a document can be read back (so two  *)
(* documents never share a text) and prints the replay cases.               *)
(***************************************************************************)
EXTENDS InputTree, TLC, Json

CONSTANTS MaxNodes, SymbolSet

Syms == CASE SymbolSet = "few" -> {<<"a">>, <<"\"">>, <<"\\">>}
          [] SymbolSet = "odd" -> {<<"\"">>, <<"\\">>, <<"\\", "\"">>, <<"\"", " ", "\"">>, <<"(", "r", "o", "w", ")">>, <<>>, <<" ">>}
T(ww, hh) == Shape("table", ww, hh)
Shapes == FixedShapes \cup {T(2, 1), T(1, 2), T(2, 2), T(11, 1)}

VARIABLE tree
Empties(s) == Box(s.k, s.w, [q \in 1..(s.w * s.h) |-> <<>>])
GrowNodes == {Sym(t) : t \in Syms} \cup {Empties(s) : s \in Shapes}
Init == tree = <<>>
Next == /\ Size(tree) < MaxNodes
        /\ \E p \in RangeOf(AllRows(tree)) : \E n \in GrowNodes :
              \* append only: every document is still reached
              tree' = Apply(tree, RowIns(p, Len(RowAt(tree, p)), <<n>>))
Spec == Init /\ [][Next]_tree

(* A reader of the text form: returns <<node or row, rest of the text>>.    *)
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CHOOSE d \in 0..9 : Digit(d) = c
RECURSIVE ReadNat(_, _)
ReadNat(s, acc) == IF s # <<>> /\ IsDigit(s[1]) THEN ReadNat(Tail(s), acc * 10 + DigitVal(s[1])) ELSE <<acc, s>>
RECURSIVE ReadStr(_, _)
ReadStr(s, acc) ==   \* after the opening quote
    IF s[1] = "\"" THEN <<acc, Tail(s)>>
    ELSE IF s[1] = "\\" THEN ReadStr(SubSeq(s, 3, Len(s)), Append(acc, s[2]))
    ELSE ReadStr(Tail(s), Append(acc, s[1]))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
KindOf(s) == CHOOSE kd \in Kinds : IsPrefixOf(KindChars(kd) \o <<" ">>, s)
RECURSIVE ReadRow(_), ReadNodes(_, _), ReadRows(_, _)
ReadRow(s) == ReadNodes(Drop(s, 4), <<>>)    \* s starts with (row
ReadNodes(s, acc) ==
    IF s[1] = ")" THEN <<acc, Tail(s)>>
    ELSE LET t == Tail(s) IN     \* a blank
         IF t[1] = "\"" THEN LET r == ReadStr(Tail(t), <<>>) IN ReadNodes(r[2], Append(acc, Sym(r[1])))
         ELSE LET u == Tail(t)
                  kd == KindOf(u)
                  nw == ReadNat(Drop(u, Len(KindChars(kd)) + 1), 0)
                  nh == ReadNat(Tail(nw[2]), 0)
                  rows == ReadRows(nh[2], <<>>)
              IN ReadNodes(rows[2], Append(acc, Box(kd, nw[1], rows[1])))
ReadRows(s, acc) ==
    IF s[1] = ")" THEN <<acc, Tail(s)>>
    ELSE LET r == ReadRow(Tail(s)) IN ReadRows(r[2], Append(acc, r[1]))

ReadsBack == LET r == ReadRow(PrintRow(tree)) IN r[1] = tree /\ r[2] = <<>>
Facet == /\ ReadsBack
         /\ PrintT("CASE " \o ToJson([op |-> "text", tree |-> tree, expect |-> PrintRow(tree)]))
=============================================================================
