------------------------------ MODULE ImportMC ------------------------------
(***************************************************************************)
(* All elements of a bounded size over a set of tags, written as the list   *)
(* of their parts in document order with their depths.                      *)
(***************************************************************************)
EXTENDS Import, TLC, Json

CONSTANTS TagSet, MaxNodes

Every == {"mi", "mn", "mo", "mtext", "ms", "mrow", "mstyle", "mtd", "mtr", "math", "semantics", "mfrac", "msqrt", "mroot", "msub", "msup",
          "msubsup", "munder", "mover", "munderover", "mtable", "mspace"}
Tags ==
    CASE TagSet = "every"   -> Every
      [] TagSet = "scripts" -> {"mi", "mrow", "mtext", "msub", "msubsup", "munder", "munderover", "msqrt"}
      [] TagSet = "tables"  -> {"mi", "mtable", "mtr", "mtd", "mrow"}
      [] TagSet = "grids"   -> {"mtable", "mtr", "mtd"}
      [] TagSet = "bad"     -> {"mi", "mfrac", "mroot", "merror", "semantics", "mover"}
Bearing == {"mi", "mn", "mo", "mtext", "ms", "mrow", "mspace", "mtd"}
Texts == {<<>>, <<"x">>, <<"1", "2">>}
\* text in an element that has none of its own is not read
Plain(t) == IF t \in Bearing /\ TagSet # "grids" THEN (IF t \in {"mi", "mtext"} THEN Texts ELSE {<<"x">>}) ELSE {<<>>}
Leaf == {"mi", "mn", "mo", "mtext", "ms", "mspace"}

VARIABLE parts
Init == parts = <<>>
Next ==
    /\ Len(parts) < MaxNodes
    /\ \E t \in Tags : \E s \in Plain(t) :
       \E d \in 1..(IF parts = <<>> THEN 1 ELSE LET p == parts[Len(parts)] IN IF p.t \in Leaf THEN p.d ELSE p.d + 1) :
           parts' = Append(parts, [t |-> t, s |-> s, d |-> d])
Spec == Init /\ [][Next]_parts

RECURSIVE Built(_, _)
(* the elements of depth d in a list *)
Built(ps, d) ==
    LET heads == SelectSeq([i \in DOMAIN ps |-> i], LAMBDA i : ps[i].d = d)
        End(k) == IF k = Len(heads) THEN Len(ps) ELSE heads[k + 1] - 1
    IN [k \in DOMAIN heads |-> [t |-> ps[heads[k]].t, s |-> ps[heads[k]].s, c |-> Built(SubSeq(ps, heads[k] + 1, End(k)), d + 1)]]
Dom == El("math", Built(parts, 1))

(* a table without cells can be read; otherwise documents are well formed *)
RECURSIVE Filled(_)
Filled(row) ==
    [i \in DOMAIN row |->
        IF row[i].k = "table" /\ row[i].c = <<>> THEN Box("table", 1, <<<<>>>>) ELSE [row[i] EXCEPT !.c = [j \in DOMAIN row[i].c |-> Filled(row[i].c[j])]]]
TypeOk == WellFormed(Filled(Meaning(Dom)))
Facet ==
    LET m == Meaning(Dom) IN
    (* writing a document and reading it again gives the document *)
    /\ Meaning(El("math", Written(m))) = m
    /\ Faults(El("math", Written(m))) = 0
    (* what is wrong stays visible *)
    /\ Faults(Dom) <= Cardinality({i \in DOMAIN Leaves(m) : Leaves(m)[i] = "Error"})
    /\ PrintT("CASE " \o ToJson([op |-> "import", dom |-> Dom]))
=============================================================================
