---------------------------- MODULE EditorTrace -----------------------------
(***************************************************************************)
(* Checks editor histories recorded from the implementation (harness/      *)
(* editor) against the specification.  A history is a "load" line followed  *)
(* by one line per command.  The observable state (document, reported       *)
(* selection, popup) is adopted from the log after every command, and the   *)
(* undo and redo histories are followed as snapshots of what was observed,  *)
(* so that each command is judged on its own and only under the property    *)
(* it belongs to (constant Property).                                       *)
(***************************************************************************)
EXTENDS Editor, TLC, Json, IOUtils

CONSTANTS Property, Chunks

Log == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Log)

VARIABLES l, st
vars == <<l, st>>

Motions == {"move", "extend", "click", "drag"}
Inserts == {"type", "paste", "repaste"}
AnySel == [RowSel([p |-> <<>>, a |-> 0, b |-> 0]) EXCEPT !.g = "any"]
Unknown == [known |-> FALSE, s |-> Pos(<<>>, 0), e |-> Pos(<<>>, 0)]
Ends(s, e) == [known |-> TRUE, s |-> s, e |-> e]

(* st: what is known about the editor in front of line l *)
Blank == [tree |-> <<>>, rules |-> <<>>, sel |-> AnySel, raw |-> Unknown, undo |-> <<>>, redo |-> <<>>, mem |-> 0, lost |-> TRUE]
Entry(bt, bs, at, as, by) == [bt |-> bt, bs |-> bs, at |-> at, as |-> as, by |-> by]

Loaded(ev) ==
    [tree |-> ev.tree, rules |-> ev.rules, sel |-> ev.sel, raw |-> Ends(Pos(<<>>, 0), Pos(<<>>, 0)), redo |-> <<>>, mem |-> 0, lost |-> FALSE,
     undo |-> IF ev.tree = <<>> THEN <<>> ELSE <<Entry(<<>>, Collapsed(Pos(<<>>, 0)), ev.tree, ev.sel, "load")>>]

(* ------------------------------ observations --------------------------- *)
Obs(ev) == ev.out.v[1]
PopList(ev) == ev.pop.list
TokenAt(x, ev) ==
    IF ~ev.popped \/ ~ev.pop.shown \/ x.sel.g # "row" \/ ev.pop.at = 0 \/ ev.pop.at > Len(ev.pop.list) THEN NoToken
    ELSE LET m == ev.pop.list[ev.pop.at]
         IN IF m.rule \in DOMAIN x.rules /\ m.text = x.rules[m.rule].text /\ m.k <= x.sel.a
            THEN [p |-> x.sel.p, a |-> x.sel.a - m.k, b |-> x.sel.a, rule |-> m.rule] ELSE NoToken
Vals(cmd) == IF cmd.c = "type" THEN [i \in DOMAIN cmd.v |-> Sym(cmd.v[i])] ELSE cmd.nodes
OffersOf(x) == IF IsCollapsed(x.sel) THEN Offered(x.rules, RowAt(x.tree, x.sel.p), x.sel.a, 2) ELSE {}
ActsAsMotion(x, cmd) ==
    \/ cmd.c \in Motions
    \/ cmd.c = "remove" /\ x.sel.g = "row" /\ RemoveAt(x.tree, x.sel, cmd.m).kind = "move"

(* places of the old document that end up at q when the token is replaced *)
Origins(x, token, q) ==
    {o \in RangeOf(DocOrder(x.tree)) :
        ~InToken(token, o) /\ SpliceMove(o, token.p, token.a, token.b, x.rules[token.rule].result) = q}

ValidSel(t, s) ==
    IF s.g = "row" THEN ValidPos(t, Pos(s.p, s.a)) /\ ValidPos(t, Pos(s.p, s.b))
    ELSE /\ s.g = "grid" /\ ValidPath(t, s.p)
         /\ s.i < Len(RowAt(t, s.p))
         /\ LET n == RowAt(t, s.p)[s.i + 1] IN
            /\ n.k = "table" /\ s.x0 <= s.x1 /\ s.x1 < n.w /\ s.y0 <= s.y1 /\ s.y1 < Height(n)
            /\ s.x0 >= 0 /\ s.y0 >= 0

(* ------------------------------- following ----------------------------- *)
Push(x, entry) == [x EXCEPT !.undo = Append(x.undo, entry), !.redo = <<>>]
MayRecord(x, ev) ==    \* might have been recorded although the document is the same
    LET c == ev.cmd.c IN
    \/ c \in Inserts /\ (Vals(ev.cmd) # <<>> \/ ~IsCollapsed(x.sel))
    \/ c = "splice" /\ (ev.cmd.nodes # <<>> \/ ev.cmd.r.a # ev.cmd.r.b)
    \/ c = "accept" /\ Obs(ev).ret
    \/ c = "remove" /\ ~IsCollapsed(x.sel)
    \/ LET k == TokenAt(x, ev) IN k # NoToken /\ x.rules[k.rule].result = Slice(RowAt(x.tree, k.p), k.a, k.b)

FollowHistory(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
        token == TokenAt(x, ev)
    IN CASE c = "undo" -> IF x.undo = <<>> THEN x
                          ELSE [x EXCEPT !.undo = SubSeq(x.undo, 1, Len(x.undo) - 1), !.redo = Append(x.redo, x.undo[Len(x.undo)])]
         [] c = "redo" -> IF x.redo = <<>> THEN x
                          ELSE [x EXCEPT !.redo = SubSeq(x.redo, 1, Len(x.redo) - 1), !.undo = Append(x.undo, x.redo[Len(x.redo)])]
         [] OTHER ->
              IF n.tree # x.tree
              THEN IF ActsAsMotion(x, ev.cmd)
                   THEN LET os == IF token = NoToken \/ ~IsCollapsed(n.sel) THEN {} ELSE Origins(x, token, Pos(n.sel.p, n.sel.a))
                            bs == IF Cardinality(os) = 1 THEN Collapsed(CHOOSE o \in os : TRUE) ELSE AnySel
                        IN Push(x, Entry(x.tree, bs, n.tree, n.sel, "autocorrect"))
                   ELSE Push(x, Entry(x.tree, x.sel, n.tree, n.sel, c))
              ELSE IF MayRecord(x, ev) THEN [x EXCEPT !.lost = TRUE] ELSE x

FollowEnds(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
        same == n.tree = x.tree
        guess == Step(x.tree, Pos(x.sel.p, x.sel.b), ev.cmd.d)
    IN IF c = "all" THEN Ends(Pos(<<>>, 0), Pos(<<>>, Len(n.tree)))
       ELSE IF n.sel.g = "row" /\ n.sel.a = n.sel.b THEN Ends(Pos(n.sel.p, n.sel.a), Pos(n.sel.p, n.sel.a))
       ELSE IF c = "drag" /\ same /\ x.raw.known THEN Ends(x.raw.s, ev.cmd.q)
       ELSE IF c = "extend" /\ same /\ n.ret /\ x.raw.known /\ guess # NoPos /\ Selection(x.tree, x.raw.s, guess) = n.sel
            THEN Ends(x.raw.s, guess)
       ELSE IF same /\ n.sel = x.sel /\ c \notin {"drag", "extend", "undo", "redo", "splice", "click"} THEN x.raw
       ELSE Unknown

FollowChoice(x, ev, y) ==  \* y: the state after the command, without the choice
    LET c == ev.cmd.c
        shown == IF c = "popdir" /\ ev.after.shown THEN ev.after ELSE ev.pop
        looked == ev.popped /\ shown.shown /\ shown.at \in DOMAIN shown.list
        rule == IF looked THEN shown.list[shown.at].rule ELSE x.mem
    IN IF c = "accept" \/ (ActsAsMotion(x, ev.cmd) /\ y.tree # x.tree) THEN 0
       ELSE IF \E m \in OffersOf(y) : m.rule = rule THEN rule ELSE 0

Follow(x, ev) ==
    IF ev.op = "load" THEN Loaded(ev)
    ELSE IF ~ev.out.ok THEN Blank
    ELSE LET n == Obs(ev)
             h == FollowHistory(x, ev)
             y == [h EXCEPT !.tree = n.tree, !.sel = n.sel, !.raw = FollowEnds(x, ev)]
         IN [y EXCEPT !.mem = IF ValidSel(y.tree, y.sel) THEN FollowChoice(x, ev, y) ELSE 0]

(* -------------------------------- judging ------------------------------ *)
Same(x, n) == n.tree = x.tree /\ n.sel = x.sel

JudgeHistory(x, ev, Mine(_)) ==   \* undo and redo, of entries that are Mine
    LET n == Obs(ev) IN
    IF x.lost THEN TRUE
    ELSE IF ev.cmd.c = "undo" /\ x.undo # <<>> /\ Mine(x.undo[Len(x.undo)]) THEN
        LET t == x.undo[Len(x.undo)]
        IN ev.out.ok /\ n.ret /\ n.tree = t.bt /\ (t.bs = AnySel \/ n.sel = t.bs)
    ELSE IF ev.cmd.c = "redo" /\ x.redo # <<>> /\ Mine(x.redo[Len(x.redo)]) THEN
        LET t == x.redo[Len(x.redo)]
        IN ev.out.ok /\ n.ret /\ n.tree = t.at /\ (t.as = AnySel \/ n.sel = t.as)
    ELSE TRUE

C12(x, ev) ==
    /\ JudgeHistory(x, ev, LAMBDA t : TRUE)
    /\ (~x.lost /\ ev.cmd.c = "undo" /\ x.undo = <<>>) => ev.out.ok /\ ~Obs(ev).ret /\ Same(x, Obs(ev))
    /\ (~x.lost /\ ev.cmd.c = "redo" /\ x.redo = <<>>) => ev.out.ok /\ ~Obs(ev).ret /\ Same(x, Obs(ev))

C13(x, ev) ==
    /\ ev.out.ok
    /\ WellFormed(Obs(ev).tree) /\ NoEmptyGrid(Obs(ev).tree)
    /\ ValidSel(Obs(ev).tree, Obs(ev).sel)

JudgeMove(x, ev, ds) ==
    (ev.cmd.c = "move" /\ ev.cmd.d \in ds /\ x.sel.g = "row") =>
        /\ ev.out.ok
        /\ LET n == Obs(ev) IN
           /\ TokenAt(x, ev) = NoToken => n.tree = x.tree
           /\ n.tree = x.tree => n.sel = Arrow(x.tree, x.sel, ev.cmd.d)
C14(x, ev) == JudgeMove(x, ev, {"left", "right"})
C15(x, ev) == JudgeMove(x, ev, {"up", "down"})

JudgeInsert(x, ev) ==
    /\ ev.out.ok /\ Obs(ev).ret
    /\ LET y == InsertAt(x.tree, x.sel, Vals(ev.cmd)) IN Obs(ev).tree = y.tree /\ Obs(ev).sel = y.sel
C16(x, ev) == (ev.cmd.c \in Inserts /\ x.sel.g = "row") => JudgeInsert(x, ev)

C17(x, ev) ==
    (ev.cmd.c = "remove" /\ x.sel.g = "row") =>
        LET y == RemoveAt(x.tree, x.sel, ev.cmd.m)
            n == Obs(ev)
        IN /\ ev.out.ok
           /\ y.kind = "edit" => n.tree = y.tree /\ n.sel = y.sel
           /\ y.kind = "none" => Same(x, n)
           /\ (y.kind = "move" /\ TokenAt(x, ev) = NoToken) => n.tree = x.tree

C18(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
    IN c \in {"click", "drag", "extend", "all", "release"} =>
        /\ ev.out.ok
        /\ (c \in Motions /\ TokenAt(x, ev) # NoToken /\ n.tree # x.tree) \/    \* autocorrected: see C21
           /\ n.tree = x.tree
           /\ c = "click" => n.sel = Collapsed(ev.cmd.q)
           /\ (c = "drag" /\ x.raw.known) => n.sel = Selection(x.tree, x.raw.s, ev.cmd.q)
           /\ c = "all" => n.sel = RowSel([p |-> <<>>, a |-> 0, b |-> Len(x.tree)])
           /\ c = "release" => n.sel = x.sel
           /\ (c = "extend" /\ n.ret /\ x.raw.known) =>
                \E q \in RangeOf(DocOrder(x.tree)) : n.sel = Selection(x.tree, x.raw.s, q)

JudgeOffers(x, pop) ==
    LET want == OffersOf(x)
        got == {[rule |-> pop.list[i].rule, k |-> pop.list[i].k, text |-> pop.list[i].text] : i \in DOMAIN pop.list}
    IN /\ pop.shown <=> want # {}
       /\ got = want /\ Len(pop.list) = Cardinality(want)
       /\ \A i \in DOMAIN pop.list : pop.list[i].complete = (pop.list[i].text = x.rules[pop.list[i].rule].text)
C19(x, ev) == ev.popped => ev.pop.ok /\ JudgeOffers(x, ev.pop)

C20(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
        p == ev.pop
    IN /\ (ev.popped /\ p.ok /\ p.shown) =>
            /\ p.at \in DOMAIN p.list
            /\ (x.mem # 0 /\ \E i \in DOMAIN p.list : p.list[i].rule = x.mem) => p.list[p.at].rule = x.mem
       /\ c = "popdir" =>
            /\ ev.out.ok /\ Same(x, n) /\ n.ret = p.shown
            /\ p.shown =>
                 /\ ev.after.shown /\ ev.after.list = p.list
                 /\ ev.after.at = IF ev.cmd.d = "up" THEN Max2(p.at - 1, 1) ELSE Min2(p.at + 1, Len(p.list))
       /\ c \in {"popup", "dismiss"} => ev.out.ok /\ Same(x, n)
       /\ c = "popup" => n.ret = p.shown
       /\ c = "accept" =>
            /\ ev.out.ok /\ n.ret = p.shown
            /\ ~p.shown => Same(x, n)
            /\ (p.shown /\ x.sel.g = "row" /\ p.at \in DOMAIN p.list) =>
                 LET m == p.list[p.at]
                     r == x.rules[m.rule].result
                 IN /\ n.tree = Splice(x.tree, x.sel.p, x.sel.a - m.k, x.sel.a, r)
                    /\ n.sel = Collapsed(Pos(x.sel.p, x.sel.a - m.k + Len(r)))
       /\ JudgeHistory(x, ev, LAMBDA t : t.by = "accept")

C21(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
        token == TokenAt(x, ev)
        fixed == Splice(x.tree, token.p, token.a, token.b, x.rules[token.rule].result)
    IN /\ (ActsAsMotion(x, ev.cmd)) =>
            /\ ev.out.ok
            /\ IF token = NoToken THEN n.tree = x.tree
               ELSE IF n.tree = x.tree
               THEN (n.sel.g = "row" /\ n.sel.a = n.sel.b /\ ~InToken(token, Pos(n.sel.p, n.sel.a))) => fixed = x.tree
               ELSE /\ n.tree = fixed
                    (* a selection that begins at the token has not left it *)
                    /\ (c \in {"extend", "drag"} /\ x.raw.known) =>
                         LET q == IF c = "drag" THEN ev.cmd.q ELSE Step(x.tree, Pos(x.sel.p, x.sel.b), ev.cmd.d)
                         IN q # NoPos => Left(token, Selection(x.tree, x.raw.s, q))
                    /\ IsCollapsed(n.sel) => Origins(x, token, Pos(n.sel.p, n.sel.a)) # {}
                    /\ c = "click" =>
                         /\ ~InToken(token, ev.cmd.q)
                         /\ n.sel = Collapsed(SpliceMove(ev.cmd.q, token.p, token.a, token.b, x.rules[token.rule].result))
       (* editing the token itself is not leaving it *)
       /\ (c \in Inserts /\ token # NoToken /\ ev.out.ok /\ Vals(ev.cmd) # <<>>) =>
            LET y == InsertAt(x.tree, x.sel, Vals(ev.cmd)).tree
                z == Splice(y, token.p, token.a, token.b, x.rules[token.rule].result)
            IN z # y => n.tree # z
       /\ c \in {"popup", "popdir", "dismiss", "copy", "syntax", "all", "release"} => ev.out.ok /\ n.tree = x.tree
       /\ JudgeHistory(x, ev, LAMBDA t : t.by = "autocorrect")

(* a second editor got the same commands without those that leave no trace *)
Twin(ev) == ev.twin = <<>> \/ (ev.twin[1].ok = ev.out.ok /\ ev.twin[1].v = ev.out.v)

C22(x, ev) ==
    LET c == ev.cmd.c
        n == Obs(ev)
        Nothing ==
            CASE c \in {"pasteraw", "dismiss"} -> TRUE
              [] c = "undo" -> ~x.lost /\ x.undo = <<>>
              [] c = "redo" -> ~x.lost /\ x.redo = <<>>
              [] c \in {"accept", "popdir"} -> OffersOf(x) = {}
              [] c = "remove" -> x.sel.g = "row" /\ RemoveAt(x.tree, x.sel, ev.cmd.m).kind = "none"
              [] c = "move" -> x.sel.g = "row" /\ Arrow(x.tree, x.sel, ev.cmd.d) = x.sel
              [] c \in Inserts -> Vals(ev.cmd) = <<>> /\ IsCollapsed(x.sel)
              [] c = "splice" -> ev.cmd.nodes = <<>> /\ ev.cmd.r.a = ev.cmd.r.b
              [] OTHER -> FALSE
    IN /\ Nothing => ev.out.ok /\ Same(x, n)
       /\ c = "pasteraw" => ~n.ret
       /\ (ev.out.ok /\ ~n.ret) => Same(x, n)
       /\ Twin(ev)

C23(x, ev) ==
    /\ ev.cmd.c = "syntax" => ev.out.ok /\ Same(x, Obs(ev)) /\ ev.got = ev.fresh
    /\ Twin(ev)

C24(x, ev) ==
    /\ (ev.cmd.c = "copy" /\ x.sel.g = "row") =>
          /\ ev.out.ok /\ Obs(ev).ret /\ Same(x, Obs(ev))
          /\ ev.vals = <<Slice(RowAt(x.tree, x.sel.p), Min2(x.sel.a, x.sel.b), Max2(x.sel.a, x.sel.b))>>
    /\ (ev.cmd.c = "repaste" /\ x.sel.g = "row") => JudgeInsert(x, ev)

Accepts(x, ev) ==
    ev.op = "load" \/
    CASE Property = "C12" -> C12(x, ev)
      [] Property = "C13" -> C13(x, ev)
      [] Property = "C14" -> C14(x, ev)
      [] Property = "C15" -> C15(x, ev)
      [] Property = "C16" -> C16(x, ev)
      [] Property = "C17" -> C17(x, ev)
      [] Property = "C18" -> C18(x, ev)
      [] Property = "C19" -> C19(x, ev)
      [] Property = "C20" -> C20(x, ev)
      [] Property = "C21" -> C21(x, ev)
      [] Property = "C22" -> C22(x, ev)
      [] Property = "C23" -> C23(x, ev)
      [] Property = "C24" -> C24(x, ev)

(* ----------------------------- the behaviour --------------------------- *)
IsStart(i) == Log[i].op = "load"
FirstStart(i) == LET S == {j \in i..Min2(N, i + 300) : IsStart(j)} IN IF S = {} THEN N + 1 ELSE SetMin(S)
Starts == {FirstStart(1 + ((k - 1) * N) \div Chunks) : k \in 1..Chunks}

Init == l \in Starts /\ st = Blank /\ l <= N
Next == /\ l < N /\ (l + 1) \notin Starts
        /\ l' = l + 1
        /\ st' = Follow(st, Log[l])
Spec == Init /\ [][Next]_vars

Accepted == l <= N => Accepts(st, Log[l])
=============================================================================
