------------------------------ MODULE EditorMC ------------------------------
(***************************************************************************)
(* The editor under every sequence of commands up to a bounded length, from *)
(* a few documents: TLC checks the design (undo and redo, the popup, the    *)
(* autocorrection, commands without effect) on every reachable state, and   *)
(* prints each explored history for execution by the implementation.        *)
(***************************************************************************)
EXTENDS Editor, TLC, Json

CONSTANTS Alphabet,   \* which commands and documents
          MaxLen      \* commands per history

VARIABLES ed, hist, prev, doc
vars == <<ed, hist, prev, doc>>

X == Sym("x")
Row(v) == [i \in DOMAIN v |-> Sym(v[i])]
Frac(a, b) == Box("frac", 1, <<a, b>>)
Table22(a, b, c, d) == Box("table", 2, <<a, b, c, d>>)

Rule(t, r) == [text |-> t, result |-> r]
RuleSet ==
    CASE Alphabet \in {"popup", "auto"} ->
           <<Rule("ab", <<Sym("P")>>), Rule("aab", <<Frac(<<Sym("Q")>>, <<>>)>>), Rule("abc", Row(<<"R", "S", "T", "U">>))>>
      \* (some of the rules of the page)
      [] Alphabet = "page" ->
           <<Rule("^", <<Box("sup", 1, <<<<>>>>)>>), Rule("lim", Row(<<"l", "i", "m">>)), Rule("sum", <<Sym("@SUM")>>), Rule(">=", <<Sym("@GE")>>)>>
      [] OTHER -> <<>>
Docs ==
    CASE Alphabet = "undo"   -> {<<>>, Row(<<"a", "b">>), <<Frac(Row(<<"a">>), <<>>)>>}
      [] Alphabet = "page"   -> {<<>>, Row(<<"s", "u">>), <<Table22(Row(<<"l", "i">>), <<>>, <<>>, Row(<<"b">>))>>}
      [] Alphabet = "popup"  -> {Row(<<"a">>), Row(<<"a", "a", "b">>), <<Frac(Row(<<"a", "b">>), <<>>)>>}
      [] Alphabet = "auto"   -> {Row(<<"a", "b">>), Row(<<"a", "b", "c", "x">>), Row(<<"y", "a", "b">>), <<Sym("y"), Frac(Row(<<"a", "b">>), Row(<<"x">>)), Sym("x")>>}
      [] Alphabet = "select" -> {<<Sym("a"), Frac(Row(<<"b">>), Row(<<"c">>)), Sym("d")>>, <<Table22(Row(<<"a">>), <<>>, <<>>, Row(<<"b">>))>>}
      [] Alphabet = "ask"    -> {<<>>, <<Sym("a"), Box("sup", 1, <<<<Sym("b"), Box("root", 2, <<<<>>, Row(<<"c">>)>>)>>>>)>>}
      [] Alphabet = "remove" -> {<<Sym("a"), Frac(Row(<<"b">>), Row(<<"c">>))>>, <<Box("sup", 1, <<Row(<<"b">>)>>), Box("root", 2, <<<<>>, <<>>>>)>>}

C(c) == [c |-> c]
Cd(c, d) == [c |-> c, d |-> d]
Type(v) == [c |-> "type", v |-> v]
Remove(m) == [c |-> "remove", m |-> m]
At(c, q) == [c |-> c, q |-> q]
Commands(e) ==
    CASE Alphabet = "undo" ->
           {Type(<<"x">>), Type(<<"x", "y">>), Type(<<>>), Remove("left"), Remove("right"), Cd("move", "right"), Cd("extend", "left"), C("undo"), C("redo"),
            [c |-> "pasteraw", text |-> "no"], [c |-> "splice", r |-> [p |-> <<>>, a |-> 0, b |-> Min2(1, Len(e.tree))], nodes |-> <<Sym("z")>>]}
      [] Alphabet = "popup" ->
           {Type(<<"a">>), Type(<<"b">>), Cd("move", "right"), Cd("move", "left"), Cd("popdir", "down"), Cd("popdir", "up"),
            C("accept"), C("dismiss"), C("undo"), C("redo")}
      [] Alphabet = "page" ->
           {Type(<<"s", "u">>), Type(<<"m">>), Type(<<">", "=">>), Type(<<"^">>), Cd("move", "right"), Cd("move", "left"), Cd("extend", "right"), Remove("left"),
            Remove("range"), Cd("popdir", "down"), C("accept"), C("popup"), C("undo"), C("redo"), C("all"), C("copy"), C("syntax"),
            At("click", Pos(<<>>, Len(e.tree))), [c |-> "pasteraw", text |-> "no"]}
           \cup (IF \E i \in DOMAIN e.tree : e.tree[i].k = "table" THEN {At(c, Pos(<<<<0, j>>>>, 0)) : c \in {"click", "drag"}, j \in {0, 3}} ELSE {})
      [] Alphabet = "auto" ->
           {Cd("move", "right"), Cd("move", "left"), Cd("move", "down"), Cd("extend", "right"), Cd("extend", "left"), Type(<<"c">>), Remove("left"), Remove("right"), Cd("popdir", "down"),
            C("undo"), C("redo"), At("drag", Pos(<<>>, 0)), At("click", Pos(<<>>, 0)), At("click", Pos(<<>>, Len(e.tree))), At("drag", Pos(<<>>, Len(e.tree)))}
           \* (the end of the numerator, which ends in a completed word)
           \cup (IF \E i \in DOMAIN e.tree : e.tree[i].k = "frac" /\ i = 2 THEN {At("click", Pos(<<<<1, 0>>>>, Len(e.tree[2].c[1])))} ELSE {})
      [] Alphabet = "select" ->
           {Cd("extend", d) : d \in {"left", "right", "up", "down"}}
           \cup {At(c, q) : c \in {"click", "drag"}, q \in {DocOrder(e.tree)[i] : i \in {i \in DOMAIN DocOrder(e.tree) : i % 3 = 1}}}
           \cup {C("all"), Cd("move", "right"), Remove("left"), Type(<<"x">>), C("undo")}
      \* (the syntax tree is asked for between commands, at the outermost and the innermost row)
      [] Alphabet = "ask" ->
           {C("syntax"), Type(<<"x">>), Remove("left"), C("undo"), C("redo"), At("click", Pos(<<>>, Len(e.tree))),
            [c |-> "splice", r |-> [p |-> <<>>, a |-> 0, b |-> Min2(1, Len(e.tree))], nodes |-> <<Sym("z"), Sym("z")>>]}
           \cup (LET deep == {q \in RangeOf(DocOrder(e.tree)) : Len(q.p) = 2 /\ q.p[2][2] = 1 /\ q.o = 1}
                 IN {At("click", q) : q \in deep})
      [] Alphabet = "remove" ->
           {Remove("left"), Remove("right"), Remove("range"), Cd("move", "right"), Cd("move", "left"), Cd("extend", "right"), Type(<<"x">>), C("undo"), C("redo")}

Init == \E d \in Docs :
    LET start == DoSplice(NewEditor(<<>>), <<>>, 0, 0, d)
    IN ed = start /\ prev = [ed |-> start, ret |-> TRUE] /\ hist = <<>> /\ doc = d
Next == /\ Len(hist) < MaxLen
        /\ \E cmd \in Commands(ed) :
            /\ Enabled(ed, cmd) = TRUE
            /\ LET r == Do(RuleSet, ed, cmd) IN
               /\ ed' = r.ed
               /\ hist' = Append(hist, cmd)
               /\ prev' = [ed |-> ed, ret |-> r.ret]
        /\ doc' = doc
Spec == Init /\ [][Next]_vars

TypeOk ==
    /\ WellFormed(ed.tree) /\ NoEmptyGrid(ed.tree)
    /\ ValidPos(ed.tree, ed.s) /\ ValidPos(ed.tree, ed.e)
    /\ \A i \in DOMAIN ed.undo : WellFormed(ed.undo[i].before.tree)

(* undo and redo lead back and forth through the same states *)
Parts(e) == <<e.tree, e.s, e.e>>
UndoOk ==
    /\ ed.undo # <<>> =>
         LET u == DoUndo(ed).ed
             r == DoRedo(u).ed
         IN /\ r.tree = ed.tree /\ r.undo = ed.undo /\ r.redo = ed.redo
            /\ u.tree = ed.undo[Len(ed.undo)].before.tree
    /\ LET RECURSIVE Back(_)
           Back(e) == IF e.undo = <<>> THEN e ELSE Back(DoUndo(e).ed)
           RECURSIVE Forth(_)
           Forth(e) == IF e.redo = <<>> THEN e ELSE Forth(DoRedo(e).ed)
       IN /\ Back(ed).tree = <<>>
          /\ Forth(ed).tree = Forth(Back(ed)).tree
    (* consecutive entries join *)
    /\ \A i \in 1..(Len(ed.undo) - 1) : ed.undo[i].after.tree = ed.undo[i + 1].before.tree
    /\ ed.undo # <<>> => ed.undo[Len(ed.undo)].after.tree = ed.tree
    /\ ed.redo # <<>> => ed.redo[Len(ed.redo)].before.tree = ed.tree

LastCmd == hist[Len(hist)]
NoTraceOk ==
    hist # <<>> =>
      /\ ~prev.ret => Parts(ed) = Parts(prev.ed) /\ ed.undo = prev.ed.undo /\ ed.redo = prev.ed.redo
      /\ ed.tree # prev.ed.tree => LastCmd.c \in {"undo", "redo"} \/ (ed.redo = <<>> /\ Len(ed.undo) = Len(prev.ed.undo) + 1)
      /\ LastCmd.c \in {"popdir", "dismiss", "all", "copy", "syntax"} => ed.tree = prev.ed.tree /\ ed.undo = prev.ed.undo

PopupOk ==
    LET pop == Popup(RuleSet, ed) IN
    /\ pop.at # 0 => /\ pop.at \in DOMAIN pop.list
                     /\ Popup(RuleSet, pop.ed).at = pop.at       \* looking twice changes nothing
    /\ (hist # <<>> /\ LastCmd.c = "popdir" /\ prev.ret) =>
         LET p == Popup(RuleSet, prev.ed) IN
         pop.at = IF LastCmd.d = "up" THEN Max2(1, p.at - 1) ELSE Min2(Len(p.list), p.at + 1)
    /\ (hist # <<>> /\ LastCmd.c = "accept" /\ prev.ret) => IsCollapsed(SelOf(ed)) /\ DoUndo(ed).ed.tree = prev.ed.tree

(* the document only changes by a motion when a completed token is left *)
AutoOk ==
    (hist # <<>> /\ LastCmd.c \in {"move", "extend", "click", "drag"} /\ ed.tree # prev.ed.tree) =>
        LET pop == Popup(RuleSet, prev.ed)
            token == TokenOf(RuleSet, SelOf(prev.ed), pop.list, pop.at)
        IN /\ token # NoToken
           /\ ed.tree = Splice(prev.ed.tree, token.p, token.a, token.b, RuleSet[token.rule].result)
           /\ DoUndo(ed).ed.tree = prev.ed.tree

Facet == Len(hist) = MaxLen => PrintT("CASE " \o ToJson([op |-> "history", tree |-> doc, rules |-> RuleSet, cmds |-> hist]))
=============================================================================
