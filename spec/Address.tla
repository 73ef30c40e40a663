------------------------------ MODULE Address -------------------------------
(***************************************************************************)
(* Addresses: the row of a document at an address, the part of the syntax   *)
(* tree at that address and the piece of the page at that address belong    *)
(* together.                                                                *)
(*                                                                         *)
(* look: every address of the document, with what looking it up in the      *)
(* syntax tree and on the page gave; lost: addresses that are no address of *)
(* the document; pieces: what is on the page, as [p |-> address of its row, *)
(* name, kind, a, b |-> the part of the syntax tree it shows].              *)
(***************************************************************************)
EXTENDS InputTree
G == INSTANCE Parser

RECURSIVE Shown(_, _)
(* the parts of a syntax tree that are not leaves, in order, with the address
   of their rows *)
Shown(t, p) ==
    IF t.kind = "leaf" THEN <<>>
    ELSE <<[p |-> p, name |-> t.name, kind |-> t.kind, a |-> t.a, b |-> t.b]>>
         \o Concat([i \in DOMAIN t.kids |-> Shown(t.kids[i], IF t.kind = "rows" THEN Append(p, <<t.a, i - 1>>) ELSE p)])

Addressed(row, v) ==
    /\ {q.p : q \in RangeOf(v.look)} = RangeOf(AllRows(row))
    /\ \A i \in DOMAIN v.look :
        LET q == v.look[i] IN
        /\ q.tree.ok /\ q.piece.ok
        /\ G!CellTree(v.tree, q.p) = q.tree.v
        /\ q.piece.v = q.tree.v
        /\ q.index = IF q.p = <<>> THEN <<>> ELSE <<q.p[Len(q.p)]>>
    /\ \A i \in DOMAIN v.lost :
        LET q == v.lost[i] IN ~ValidPath(row, q.p) /\ ~q.tree /\ ~q.piece
    /\ SelectSeq(v.pieces, LAMBDA x : x.kind # "leaf") = Shown(v.tree, <<>>)
=============================================================================
