----------------------------- MODULE ComponentMC ----------------------------
(***************************************************************************)
(* All histories of events of a bounded length over an alphabet, with the   *)
(* commands they stand for.                                                 *)
(***************************************************************************)
EXTENDS Component, TLC, Json

CONSTANTS Alphabet, MaxLen

Ev(e) == [e |-> e, key |-> "", ctrl |-> FALSE, text |-> <<>>, primary |-> TRUE, clicks |-> 1, at |-> 0, dom |-> <<>>]
Key(k) == [Ev("keydown") EXCEPT !.key = k]
Ctrl(k) == [Key(k) EXCEPT !.ctrl = TRUE]
Typed(t) == [Ev("beforeinput") EXCEPT !.key = "insertText", !.text = <<t>>]
Typing(k) == [Ev("beforeinput") EXCEPT !.key = k]
At(e, n) == [Ev(e) EXCEPT !.at = n]
Clicks(n, k) == [At("mousedown", n) EXCEPT !.clicks = k]
Attr(d) == [Ev("attr") EXCEPT !.dom = <<El("math", d)>>]
Leaf(t, s) == [t |-> t, s |-> s, c |-> <<>>]
Row(c) == El("mrow", c)
Tick == Ev("tick")

X == Leaf("mi", <<"x">>)
Fraction == <<X, El("mfrac", <<Leaf("mi", <<"a">>), Leaf("mn", <<"1">>)>>)>>
Matrix == <<El("mtable", <<El("mtr", <<El("mtd", <<X>>), El("mtd", <<Leaf("mn", <<"2">>)>>)>>), El("mtr", <<El("mtd", <<>>), El("mtd", <<X>>)>>)>>)>>
Limit == <<X, El("mfrac", <<Row(<<X, Leaf("mi", <<"s", "u", "m">>)>>), Leaf("mi", <<">", "=">>)>>)>>
Raised == <<El("msup", <<X, Leaf("mi", <<"s", "u", "m">>)>>), X>>
Sum == <<El("munderover", <<Leaf("mo", <<"@SUM">>), X, X>>), El("mroot", <<X, X>>)>>

Broken == <<X, El("mspace", <<>>), El("msup", <<X>>), Leaf("mn", <<"1">>)>>
Bare == Ev("attr")          \* without a formula

Arrows == {Key("ArrowLeft"), Key("ArrowRight"), Key("ArrowUp"), Key("ArrowDown")}
Changes == {Ctrl("z"), Ctrl("y")}
Presses(S) == {At("pointerdown", n) : n \in S}
Drags(S) == {At(e, n) : e \in {"pointermove", "pointerup", "pointercancel"}, n \in S}

Starts ==
    CASE Alphabet = "keys"    -> {Fraction, Matrix, Raised}
      [] Alphabet = "typing"  -> {<<>>, Fraction}
      [] Alphabet = "pointer" -> {Fraction, Matrix, Raised}
      [] Alphabet = "drag"    -> {Raised, Fraction, Limit}
      [] Alphabet = "clip"    -> {Fraction}
      [] Alphabet = "attr"    -> {Raised, <<>>}
      [] Alphabet = "all"     -> {<<>>, Fraction, Matrix, Raised, Sum}
Events ==
    CASE Alphabet = "keys"    -> Arrows \cup {Typing("deleteContentBackward"), Typing("deleteContentForward"), Tick}
      [] Alphabet = "typing"  -> {Typed(<<"x">>), Typed(<<"f", "o", " ">>), Typed(<<"@DEC", "x">>), Typing("deleteWordBackward"), Key("ArrowLeft"), Ctrl("z"), Ctrl("y"), Tick}
      [] Alphabet = "pointer" -> Presses({1, 4}) \cup {At(e, n) : e \in {"pointermove", "pointerup"}, n \in {2, 6}} \cup {Clicks(3, 2), Clicks(3, 3)}
      [] Alphabet = "drag"    -> Presses(0..8) \cup Drags(0..8) \cup {Clicks(n, k) : n \in 0..3, k \in 2..4} \cup {Key("ArrowRight")}
      [] Alphabet = "clip"    -> {At("pointerdown", 0), At("pointerdown", 4), At("pointermove", 1), At("pointermove", 3), Ev("copy"), Ev("cut"), Ev("paste"), Ctrl("z")}
      [] Alphabet = "attr"    -> {Attr(Sum), Attr(Matrix), Attr(<<>>), Attr(Broken), Bare, At("pointerdown", 5), At("pointerup", 0), Ctrl("z"), Ctrl("y"), Typed(<<"x">>), Tick}
      [] Alphabet = "all"     ->
            Arrows \cup Changes \cup {Ctrl("Z"), Ctrl("Y"), Tick, Ev("tick"), Ev("copy"), Ev("cut"), Ev("paste"), Ev("focus"), Key("z"), Key("y"), Ctrl("a"), Key("x")}
            \cup {[Ev("paste") EXCEPT !.key = k] : k \in {"plain", "bad", "both"}}
            \cup {Typed(t) : t \in {<<"x">>, <<"1">>, <<"^">>, <<"l", "i", "m">>, <<"+">>, <<"@GE">>, <<" ">>, <<" ", "x">>, <<"a", " ", " ", "b", " ">>, <<"@FAM", "1">>, <<"@ACC", "x">>, <<"x", "@DEC">>, <<"@DEC">>,
                                         <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "1", "2", "3", "4">>}}
            \cup {Typing(k) : k \in DOMAIN Removes \cup {"insertText", "insertCompositionText", "historyUndo"}}
            \cup Presses(0..9) \cup Drags(0..5) \cup {Clicks(n, k) : n \in {2, 5}, k \in 1..4}
            \cup {[At(e, 3) EXCEPT !.primary = FALSE] : e \in {"pointerdown", "pointermove", "pointerup"}}
            \cup {Attr(d) : d \in {Sum, Matrix, Raised, Broken}} \cup {Bare}

VARIABLES s, hist, done     \* done: a history of random events is complete
vars == <<s, hist, done>>
Enabled(e) ==
    /\ e.e = "tick" => s.timers > 0
    /\ Alphabet # "all" => /\ e.e = "beforeinput" => s.timers < 2
                           /\ e.e = "pointerdown" => ~s.down
                           /\ e.e \in {"pointermove", "pointerup", "mousedown"} => s.down

Init == done = FALSE /\ \E d \in Starts : s = Fresh /\ hist = <<[ev |-> Attr(d), cmds |-> Commands(Fresh, Attr(d))]>>
Next == \/ /\ Alphabet = "all" /\ Len(hist) = MaxLen /\ ~done
           /\ done' = TRUE /\ UNCHANGED <<s, hist>>
        \/ /\ Len(hist) < MaxLen /\ UNCHANGED done
           /\ \E e \in Events :
            /\ Enabled(e)
            /\ hist' = Append(hist, [ev |-> e, cmds |-> Commands(s, e)])
            /\ s' = After(s, e)
Spec == Init /\ [][Next]_vars

TypeOk == s.timers >= 0 /\ (s.timers = 0 => s.waiting = <<>>)
(* what was typed is done once, in order, as soon as it can be *)
Wanted == Concat([i \in DOMAIN hist |-> IF hist[i].ev.e = "beforeinput" THEN OfInput(hist[i].ev) ELSE <<>>])
Had == Concat([i \in DOMAIN hist |-> IF hist[i].ev.e = "tick" THEN hist[i].cmds ELSE <<>>])
(* a selection is made only between pressing and releasing *)
Pressed(i) == \E j \in 1..i : /\ hist[j].ev.e = "pointerdown" /\ hist[j].ev.primary
                              /\ \A k \in (j + 1)..(i - 1) : ~(hist[k].ev.e \in {"pointerup", "pointercancel"} /\ hist[k].ev.primary)
Facet ==
    /\ Had \o s.waiting = Wanted
    /\ \A i \in DOMAIN hist : (\E k \in DOMAIN hist[i].cmds : hist[i].cmds[k].c \in {"start", "extend"}) => Pressed(i)
    /\ (Len(hist) = MaxLen /\ done = (Alphabet = "all")) => PrintT("CASE " \o ToJson([op |-> "events", hist |-> hist]))
=============================================================================
