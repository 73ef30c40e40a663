------------------------------- MODULE SyntaxMC -----------------------------
(***************************************************************************)
(* The text form of syntax trees that no document needs to have: every tree *)
(* of a bounded depth over some leaves, with values and with names that the *)
(* map of names does not have.  Checks that nothing of a tree is lost (all  *)
(* its parts can be found in the text, in order, and the quotes and         *)
(* parentheses balance) and prints the replay cases.                        *)
(***************************************************************************)
EXTENDS SyntaxText, Json, FiniteSets

CONSTANTS Depth, Names

VARIABLES tree, depth
Known == CASE Names = "two" -> {"A::B", ""} [] Names = "one" -> {"A::B"} [] Names = "more" -> {"A::B", "C::D::E", ""}
Values == CASE Names = "one" -> {<<>>, <<10>>} [] OTHER -> {<<>>, <<0>>, <<10, 255>>, <<16, 1, 160>>}
Symbols == {<<"a">>, <<"\"">>, <<"\\", "\"">>, <<" ", "(", "a", ")">>}
Node(name, kind, w, kids, syms, value) == [name |-> name, kind |-> kind, w |-> w, kids |-> kids, syms |-> syms, value |-> value]
Leaves == {Node(n, "leaf", 0, <<>>, s, v) : n \in Known, s \in Symbols, v \in Values}
Blank == {Node(n, "kids", 0, <<>>, <<>>, v) : n \in Known, v \in Values}
(* what a tree gets beside it: one of few, so that there are not too many *)
Other == {Node("A::B", "leaf", 0, <<>>, <<"b">>, <<>>), Node("A::B", "kids", 0, <<>>, <<>>, <<7>>)}
Around(t, n, v) ==
    {Node(n, "kids", 0, <<t>>, <<>>, v), Node(n, "rows", 1, <<t>>, <<>>, v)}
    \cup UNION {{Node(n, "kids", 0, <<t, o>>, <<>>, v), Node(n, "kids", 0, <<o, t>>, <<>>, v), Node(n, "rows", 2, <<t, o>>, <<>>, v),
                 Node(n, "rows", 1, <<o, t>>, <<>>, v), Node(n, "rows", 2, <<o, t, o, o>>, <<>>, v)} : o \in Other}
Init == tree \in Leaves \cup Blank /\ depth = 0
Next == depth < Depth /\ \E n \in Known : \E v \in Values : tree' \in Around(tree, n, v) /\ depth' = depth + 1
Spec == Init /\ [][Next]_<<tree, depth>>

RECURSIVE Parts(_)
Parts(t) ==
    LET RECURSIVE Each(_)
        Each(k) == IF k = <<>> THEN <<>> ELSE Parts(k[1]) \o Each(Tail(k))
    IN <<NameOf(t)>>
       \o (CASE t.kind = "leaf" -> <<"\"">> \o [i \in DOMAIN t.syms |-> Escaped(t.syms[i])] \o <<"\"">> [] OTHER -> Each(t.kids))
       \o (IF t.value = <<>> THEN <<>> ELSE <<Bytes(t.value)>>)
(* the parts of a tree in order, without what is between them: the text without them is only separators *)
RECURSIVE LenOf(_)
LenOf(xs) == IF xs = <<>> THEN 0 ELSE Len(xs[1]) + LenOf(Tail(xs))
RECURSIVE Nodes(_), Sum(_), Grids(_), SumGrids(_), Inner(_), SumInner(_)
Nodes(t) == 1 + Sum(t.kids)
Sum(k) == IF k = <<>> THEN 0 ELSE Nodes(k[1]) + Sum(Tail(k))
Grids(t) == (IF t.kind = "rows" THEN 1 ELSE 0) + SumGrids(t.kids)
SumGrids(k) == IF k = <<>> THEN 0 ELSE Grids(k[1]) + SumGrids(Tail(k))
(* blanks: in front of every part of a node but its name *)
Inner(t) == (IF t.kind = "leaf" THEN 1 ELSE Len(t.kids)) + (IF t.kind = "rows" THEN 1 ELSE 0) + (IF t.value = <<>> THEN 0 ELSE 1) + SumInner(t.kids)
SumInner(k) == IF k = <<>> THEN 0 ELSE Inner(k[1]) + SumInner(Tail(k))
NothingLost == Len(Printed(tree)) = LenOf(Parts(tree)) + 2 * Nodes(tree) + 3 * Grids(tree) + Inner(tree)
TypeOk == depth <= Depth
Facet == /\ NothingLost
         /\ PrintT("CASE " \o ToJson([op |-> "printed", tree |-> tree, expect |-> Printed(tree)]))
=============================================================================
