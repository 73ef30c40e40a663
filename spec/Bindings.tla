------------------------------ MODULE Bindings -----------------------------
(***************************************************************************)
(* What a page sees of the editor.  The page gives the commands of Editor   *)
(* through the bindings; what it gets back is the state of the editor:      *)
(*   the document as it is,                                                 *)
(*   a selection in a row as its ends, a rectangle of cells of a table as   *)
(*   the number of its first cell and the one behind its last cell,         *)
(*   the offers with rule, replacement, and what is matched, and the place  *)
(*   they belong to.                                                        *)
(* A call with something that is not what it takes is refused.              *)
(***************************************************************************)
EXTENDS InputTree

SelSeen(tree, s) ==
    IF s.g = "row" THEN [g |-> "row", p |-> s.p, i |-> 0, a |-> s.a, b |-> s.b]
    ELSE LET w == RowAt(tree, s.p)[s.i + 1].w
         IN [g |-> "grid", p |-> s.p, i |-> s.i, a |-> s.y0 * w + s.x0, b |-> s.y1 * w + s.x1 + 1]
StateSeen(n, v) ==
    /\ v.ret = n.ret /\ v.tree = n.tree
    /\ v.carets = 1 /\ v.sel = SelSeen(n.tree, n.sel)
OffersSeen(pop, v, sel) ==
    /\ pop.shown = v.shown /\ pop.at = v.at /\ pop.list = v.list
    /\ v.caret = IF pop.shown THEN <<[p |-> sel.p, o |-> sel.a]>> ELSE <<>>
Bound(e, p, popped, before) ==   \* before: the selection in front of the command, where offers belong to it
    /\ p.ok = e.out.ok
    /\ p.ok => LET v == p.v[1]
                   n == e.out.v[1] IN
               /\ StateSeen(n, v)
               /\ popped => OffersSeen(e.pop, v.pop, before)
               /\ OffersSeen(e.after, v.after, n.sel)
               /\ v.raw = e.raw /\ v.syntax = e.syntax
Refused(ev) == ev.refused /\ ev.after.ok /\ ev.after.v[1] = ev.before
=============================================================================
