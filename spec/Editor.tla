------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* The editor as a state machine: the document, the caret (its two raw     *)
(* ends), the undo and redo histories and the remembered autocomplete      *)
(* choice.  Do(rules, ed, cmd) is the effect of one user command.           *)
(***************************************************************************)
EXTENDS Caret, Autocomplete

NoRule == [rule |-> 0, nth |-> 0]
NewEditor(tree) ==
    [tree |-> tree, s |-> Pos(<<>>, 0), e |-> Pos(<<>>, 0), undo |-> <<>>, redo |-> <<>>, mem |-> NoRule]
SelOf(ed) == Selection(ed.tree, ed.s, ed.e)

(* ------------------------------ the popup ------------------------------ *)
(* The offers in the order of the popup: shorter matches first, rules that *)
(* were added later first among equals, and of one rule the fewer symbols. *)
PopupLess(a, b) ==
    \/ Len(a.text) < Len(b.text)
    \/ Len(a.text) = Len(b.text) /\ a.rule > b.rule
    \/ Len(a.text) = Len(b.text) /\ a.rule = b.rule /\ a.k < b.k
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ PopupLess(x, y) IN <<m>> \o Sorted(S \ {m})

OffersAt(rules, ed) ==
    LET sel == SelOf(ed) IN
    IF IsCollapsed(sel) THEN Sorted(Offered(rules, RowAt(ed.tree, sel.p), sel.a, 2)) ELSE <<>>

Nth(list, i) == Cardinality({j \in 1..(i - 1) : list[j].rule = list[i].rule})
Remember(list, i) == [rule |-> list[i].rule, nth |-> Nth(list, i)]
ChosenOf(list, mem) ==
    LET same == {i \in DOMAIN list : list[i].rule = mem.rule} IN
    IF same = {} THEN 1
    ELSE LET wanted == {i \in same : Nth(list, i) <= mem.nth} IN SetMax(wanted)

(* opening (looking at) the popup: [list, at (0 = not shown), ed] *)
Popup(rules, ed) ==
    LET list == OffersAt(rules, ed) IN
    IF ~IsCollapsed(SelOf(ed)) THEN [list |-> <<>>, at |-> 0, ed |-> ed]
    ELSE IF list = <<>> THEN [list |-> <<>>, at |-> 0, ed |-> [ed EXCEPT !.mem = NoRule]]
    ELSE LET i == ChosenOf(list, ed.mem) IN [list |-> list, at |-> i, ed |-> [ed EXCEPT !.mem = Remember(list, i)]]

(* ------------------------------- changing ------------------------------ *)
Snapshot(ed) == [tree |-> ed.tree, s |-> ed.s, e |-> ed.e]
Restore(ed, snap) == [ed EXCEPT !.tree = snap.tree, !.s = snap.s, !.e = snap.e]
Recorded(before, after) ==
    [after EXCEPT !.undo = Append(before.undo, [before |-> Snapshot(before), after |-> Snapshot(after)]), !.redo = <<>>]
WithCaret(ed, q) == [ed EXCEPT !.s = q, !.e = q]

(* replacing a..b of row p by vals; the caret stays at its content *)
SpliceMove(q, p, a, b, vals) ==
    IF a < b /\ q.p = p /\ q.o = b THEN Pos(p, a + Len(vals))
    ELSE LET gone == IF a < b THEN TrackPos(q, [g |-> "row", ty |-> "del", p |-> p, o |-> a, vals |-> [i \in 1..(b - a) |-> i]]) ELSE q
         IN IF vals = <<>> THEN gone ELSE TrackPos(gone, RowIns(p, a, vals))
DoSplice(ed, p, a, b, vals) ==
    IF a = b /\ vals = <<>> THEN ed
    ELSE Recorded(ed, [ed EXCEPT !.tree = Splice(ed.tree, p, a, b, vals),
                                 !.s = SpliceMove(ed.s, p, a, b, vals),
                                 !.e = SpliceMove(ed.e, p, a, b, vals)])

(* ------------------------------ autocorrect ---------------------------- *)
(* the completed token in front of the caret: [p, a, b, rule] *)
NoToken == [p |-> <<>>, a |-> 0 - 1, b |-> 0 - 1, rule |-> 0]
TokenOf(rules, sel, list, at) ==
    IF at = 0 \/ ~Complete(rules, list[at]) THEN NoToken
    ELSE [p |-> sel.p, a |-> sel.a - list[at].k, b |-> sel.a, rule |-> list[at].rule]
InToken(token, q) == InRange([p |-> token.p, a |-> token.a, b |-> token.b], q)
(* the selection after a motion is no longer in the token *)
Left(token, sel) == token # NoToken /\ sel.g = "row" /\ ~InToken(token, Pos(sel.p, sel.a))
AfterMotion(rules, token, ed) ==
    IF Left(token, SelOf(ed)) THEN DoSplice(ed, token.p, token.a, token.b, rules[token.rule].result) ELSE ed

(* ------------------------------- commands ------------------------------ *)
Done(ed) == [ed |-> ed, ret |-> TRUE]
Refused(ed) == [ed |-> ed, ret |-> FALSE]
RowOnly == {"extend", "remove", "type", "paste", "copy"}    \* not implemented for rectangles of cells

DoUndo(ed) ==
    IF ed.undo = <<>> THEN Refused(ed)
    ELSE LET x == ed.undo[Len(ed.undo)] IN
         Done([Restore(ed, x.before) EXCEPT !.undo = SubSeq(ed.undo, 1, Len(ed.undo) - 1), !.redo = Append(ed.redo, x)])
DoRedo(ed) ==
    IF ed.redo = <<>> THEN Refused(ed)
    ELSE LET x == ed.redo[Len(ed.redo)] IN
         Done([Restore(ed, x.after) EXCEPT !.redo = SubSeq(ed.redo, 1, Len(ed.redo) - 1), !.undo = Append(ed.undo, x)])

DoMove(rules, ed, token, d) ==
    LET sel == SelOf(ed) IN
    IF sel.g = "grid" THEN Done(ed)
    ELSE LET m == Arrow(ed.tree, sel, d)
         IN Done(IF m = sel THEN ed ELSE AfterMotion(rules, token, WithCaret(ed, Pos(m.p, m.a))))
DoExtend(rules, ed, token, d) ==
    LET sel == SelOf(ed)
        m == Step(ed.tree, Pos(sel.p, sel.b), d)
    IN IF m = NoPos THEN Refused(ed) ELSE Done(AfterMotion(rules, token, [ed EXCEPT !.e = m]))
DoInsert(ed, vals) ==
    LET sel == SelOf(ed)
        y == InsertAt(ed.tree, sel, vals)
        new == WithCaret([ed EXCEPT !.tree = y.tree], Pos(y.sel.p, y.sel.a))
    IN Done(IF vals = <<>> /\ sel.a = sel.b THEN new ELSE Recorded(ed, new))
DoRemove(rules, ed, token, mode) ==
    LET sel == SelOf(ed)
        y == RemoveAt(ed.tree, sel, mode)
        new == WithCaret([ed EXCEPT !.tree = y.tree], Pos(y.sel.p, y.sel.a))
    IN CASE y.kind = "none" -> IF mode = "range" THEN Done(ed) ELSE Refused(ed)
         [] y.kind = "move" -> IF y.sel = sel THEN Refused(ed) ELSE Done(AfterMotion(rules, token, new))
         [] y.kind = "edit" -> Done(Recorded(ed, new))
DoPopdir(pop, d) ==
    IF pop.at = 0 THEN Refused(pop.ed)
    ELSE LET i == IF d = "up" THEN Max2(pop.at - 1, 1) ELSE Min2(pop.at + 1, Len(pop.list))
         IN Done([pop.ed EXCEPT !.mem = Remember(pop.list, i)])
DoAccept(rules, pop) ==
    IF pop.at = 0 THEN Refused(pop.ed)
    ELSE LET sel == SelOf(pop.ed)
             m == pop.list[pop.at]
         IN Done(DoSplice(pop.ed, sel.p, sel.a - m.k, sel.a, rules[m.rule].result))

(* cmd.c is the name of the command; its arguments are the other fields *)
Do(rules, ed, cmd) ==
    LET pop == Popup(rules, ed)
        token == TokenOf(rules, SelOf(ed), pop.list, pop.at)
        at == pop.ed
    IN CASE cmd.c = "move"   -> DoMove(rules, at, token, cmd.d)
         [] cmd.c = "extend" -> DoExtend(rules, at, token, cmd.d)
         [] cmd.c = "remove" -> DoRemove(rules, at, token, cmd.m)
         [] cmd.c = "type"   -> DoInsert(at, [i \in DOMAIN cmd.v |-> Sym(cmd.v[i])])
         [] cmd.c = "paste"  -> DoInsert(at, cmd.nodes)
         [] cmd.c = "pasteraw" -> Refused(at)
         [] cmd.c = "splice" -> Done(DoSplice(ed, cmd.r.p, cmd.r.a, cmd.r.b, cmd.nodes))
         [] cmd.c = "click"  -> Done(AfterMotion(rules, token, WithCaret(at, cmd.q)))
         [] cmd.c = "drag"   -> Done(AfterMotion(rules, token, [at EXCEPT !.e = cmd.q]))
         [] cmd.c = "all"    -> Done([ed EXCEPT !.s = Pos(<<>>, 0), !.e = Pos(<<>>, Len(ed.tree))])
         [] cmd.c = "undo"   -> DoUndo(ed)
         [] cmd.c = "redo"   -> DoRedo(ed)
         [] cmd.c \in {"copy", "syntax", "release"} -> Done(ed)
         [] cmd.c = "popup"  -> IF pop.at = 0 THEN Refused(at) ELSE Done(at)
         [] cmd.c = "popdir" -> DoPopdir(pop, cmd.d)
         [] cmd.c = "accept" -> DoAccept(rules, pop)
         [] cmd.c = "dismiss" -> Refused(ed)

Enabled(ed, cmd) ==
    /\ cmd.c \in RowOnly => SelOf(ed).g = "row"
    /\ cmd.c \in {"click", "drag"} => ValidPos(ed.tree, cmd.q)
    /\ cmd.c = "splice" => /\ ValidPos(ed.tree, Pos(cmd.r.p, cmd.r.a)) /\ ValidPos(ed.tree, Pos(cmd.r.p, cmd.r.b))
=============================================================================
