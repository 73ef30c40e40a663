------------------------------- MODULE SiteMC -------------------------------
(***************************************************************************)
(* All pages with a bounded number of blocks, and all short histories of    *)
(* events at the editors on some.                                           *)
(***************************************************************************)
EXTENDS Site, TLC, Json

CONSTANTS Alphabet, MaxBlocks, MaxLen

Ev(e) == [e |-> e, key |-> "", ctrl |-> FALSE, text |-> <<>>, primary |-> TRUE, clicks |-> 1, at |-> 0, dom |-> <<>>]
Key(k) == [Ev("keydown") EXCEPT !.key = k]
Typed(t) == [Ev("beforeinput") EXCEPT !.key = "insertText", !.text = <<t>>]
Typing(k) == [Ev("beforeinput") EXCEPT !.key = k]

Leaf(t, s) == [t |-> t, s |-> s, c |-> <<>>]
X == Leaf("mi", <<"x">>)
Contents == <<<<X, El("mfrac", <<Leaf("mi", <<"a", "b">>), El("mrow", <<>>)>>)>>,
              <<El("mtable", <<El("mtr", <<El("mtd", <<X>>), El("mtd", <<El("mfrac", <<X>>)>>)>>)>>), Leaf("mtext", <<"\"", "&", "<">>)>>,
              <<Leaf("mn", <<"1">>), El("msup", <<X, Leaf("mo", <<"+", "<">>)>>)>>,
              <<>>>>
Math(k, on) == [t |-> "math", s |-> <<>>, c |-> Contents[k], on |-> on]
Text(s) == [t |-> "text", s |-> <<s>>, c |-> <<>>, on |-> FALSE]
Of(t, c) == [t |-> t, s |-> <<>>, c |-> c, on |-> FALSE]
Marked(e) == [e EXCEPT !.on = TRUE]

Blocks ==
    CASE Alphabet = "pages" ->
            {Math(1, TRUE), Math(2, TRUE), Math(4, TRUE), Math(1, FALSE), Math(3, FALSE), Text("a & b"), Of("br", <<>>), Marked(Of("span", <<Text("c")>>)),
             Of("p", <<Text("d"), Math(3, TRUE), Text("e"), Math(3, FALSE)>>), Marked(Of("div", <<Of("p", <<Math(1, TRUE)>>), Math(2, FALSE), Math(2, TRUE)>>)),
             Marked([Math(3, TRUE) EXCEPT !.c = <<Math(1, TRUE), X>>])}
      [] Alphabet = "edits" -> {Math(1, TRUE), Of("p", <<Math(3, TRUE), Math(3, FALSE)>>)}
Events ==
    CASE Alphabet = "pages" -> {}
      [] Alphabet = "edits" -> {Key("ArrowRight"), Typed(<<"y">>), Typing("deleteContentBackward"), Ev("tick"), [Ev("attr") EXCEPT !.dom = <<El("math", Contents[2])>>],
                                [Ev("pointerdown") EXCEPT !.at = 2], [Ev("pointermove") EXCEPT !.at = 1]}

VARIABLES page, eds, hist, on
vars == <<page, eds, hist, on>>
Init == page = <<>> /\ eds = <<>> /\ hist = <<>> /\ on = FALSE
Write == ~on /\ Len(page) < MaxBlocks /\ \E b \in Blocks : page' = Append(page, b) /\ UNCHANGED <<eds, hist, on>>
Load == ~on /\ (Alphabet = "edits" => Len(page) = MaxBlocks) /\ on' = TRUE /\ eds' = Open(page) /\ UNCHANGED <<page, hist>>
Happen ==
    /\ on /\ Len(hist) < MaxLen
    /\ \E k \in DOMAIN eds : \E e \in Events :
        /\ e.e = "tick" => eds[k].timers > 0
        /\ e.e = "beforeinput" => eds[k].timers < 2
        /\ e.e = "pointerdown" => ~eds[k].down
        /\ hist' = Append(hist, [on |-> k, ev |-> e, cmds |-> Commands(eds[k], e)])
        /\ eds' = Happens(eds, k, e)
    /\ UNCHANGED <<page, on>>
Next == Write \/ Load \/ Happen
Spec == Init /\ [][Next]_vars

TypeOk == on => Len(eds) = Len(Formulas(page))
RECURSIVE Pieces(_)
Pieces(p) == Concat([i \in DOMAIN p |-> <<p[i]>> \o (IF p[i].t = "math" THEN <<>> ELSE Pieces(p[i].c))])
HowMany(p, Ok(_)) == Len(SelectSeq(Pieces(p), Ok))
Facet ==
    (* loading is complete, adds nothing and can be repeated *)
    /\ HowMany(Loaded(page), LAMBDA e : Becomes(e)) = 0
    /\ HowMany(Loaded(page), LAMBDA e : e.t = "math-editor") = HowMany(page, LAMBDA e : Becomes(e))
    /\ HowMany(Loaded(page), LAMBDA e : e.t # "math-editor") = HowMany(page, LAMBDA e : ~Becomes(e))
    /\ Loaded(Loaded(page)) = Loaded(page)
    (* what an editor is told depends on its own events only *)
    /\ \A k \in DOMAIN eds :
        LET mine == SelectSeq(hist, LAMBDA h : h.on = k)
            RECURSIVE Alone(_)
            Alone(n) == IF n = 0 THEN Fresh ELSE After(Alone(n - 1), mine[n].ev)
        IN /\ eds[k] = Alone(Len(mine))
           /\ \A n \in DOMAIN mine : mine[n].cmds = Commands(Alone(n - 1), mine[n].ev)
    /\ (on /\ Len(hist) = MaxLen) => PrintT("CASE " \o ToJson([op |-> "site", page |-> page, start |-> Starting(page), hist |-> hist]))
=============================================================================
