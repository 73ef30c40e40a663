----------------------------- MODULE TreeTrace -----------------------------
(***************************************************************************)
(* Checks behaviour recorded from the implementation (harness/tree, `drive`)*)
(* against the document specification.  One line of the log is one event.   *)
(* A history is a "load" line followed by edits and then by the edits being *)
(* taken back; it is followed with the document as state.  The other lines  *)
(* are self-contained observations of one document.                         *)
(*                                                                          *)
(* Property selects what is judged.  Everything else is adopted from the    *)
(* log, so that a deviation elsewhere is not reported under this property.  *)
(***************************************************************************)
EXTENDS InputTree, TLC, Json, IOUtils

CONSTANTS Property, Chunks

Log == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Log)

VARIABLES l, tree
vars == <<l, tree>>

Post(ev) == ev.out.v[1]

(* ------------------------------- judging ------------------------------- *)
EditEvent(t, ev) ==
    LET inScope == \/ Property = "C01" /\ IsRowEdit(ev.edit)
                   \/ Property = "C02" /\ ~IsRowEdit(ev.edit)
    IN /\ inScope /\ EditOk(t, ev.edit) => ev.out.ok /\ Post(ev) = Apply(t, ev.edit)
       /\ (Property = "C04" /\ IsRowEdit(ev.edit) /\ EditOk(t, ev.edit)) =>
            /\ ev.track.ok
            /\ \A i \in DOMAIN ev.pos : ValidPos(t, ev.pos[i]) =>
                    ev.track.v[1].pos[i] = TrackPos(ev.pos[i], ev.edit)
            /\ \A i \in DOMAIN ev.ranges :
                    (ValidPos(t, [p |-> ev.ranges[i].p, o |-> ev.ranges[i].a]) /\ ValidPos(t, [p |-> ev.ranges[i].p, o |-> ev.ranges[i].b])) =>
                        ev.track.v[1].ranges[i] = TrackRange(ev.ranges[i], ev.edit)

(* tracking alone, with places and edits of any size *)
ShiftEvent(ev) ==
    /\ ev.track.ok
    /\ \A i \in DOMAIN ev.pos : ev.track.v[1].pos[i] = TrackPos(ev.pos[i], ev.edit)
    /\ \A i \in DOMAIN ev.ranges : ev.track.v[1].ranges[i] = TrackRange(ev.ranges[i], ev.edit)

BackEvent(ev) ==
    Property = "C03" => ev.out.ok /\ Post(ev) = ev.before /\ ev.inverse = Inverse(ev.edit)

(* everything once more, back, and once more *)
AgainEvent(ev) == Property = "C03" => ev.out.ok /\ Post(ev) = ev.expect

MakeEvent(ev) ==
    LET a == Min2(ev.r.a, ev.r.b)
        b == Max2(ev.r.a, ev.r.b)
        p == ev.r.p
        n == Len(ev.vals)
    IN Property = "C01" =>
        /\ ev.out.ok
        /\ Post(ev) = [removed |-> Splice(ev.tree, p, a, b, <<>>), removedPos |-> [p |-> p, o |-> a],
                       inserted |-> Splice(ev.tree, p, a, a, ev.vals), insertedPos |-> [p |-> p, o |-> a + n],
                       replaced |-> Splice(ev.tree, p, a, b, ev.vals), replacedRange |-> [p |-> p, a |-> a, b |-> a + n],
                       values |-> Slice(RowAt(ev.tree, p), a, b)]

OrderEvent(ev) ==
    /\ \A i \in DOMAIN ev.cmps :
        LET c == ev.cmps[i] IN
        c.out.ok /\ c.out.v[1] = <<CmpFast(c.a, c.b), CmpFast(c.b, c.a)>>
    /\ \A i \in DOMAIN ev.ins :
        LET c == ev.ins[i] IN c.out.ok /\ c.out.v[1].in = InRange(c.out.v[1].r, c.q)

SpanEvent(ev) ==
    \A i \in DOMAIN ev.pairs :
        LET c == ev.pairs[i] IN c.out.ok /\ c.out.v[1] = SpanFast(c.a, c.b)

WayUp(t, p) ==    \* the nodes and rows above a row, innermost first
    [k \in 1..Len(p) |->
        LET q == SubSeq(p, 1, Len(p) - k)
            i == p[Len(p) - k + 1][1]
        IN [p |-> q, q |-> q, i |-> i, j |-> i, n |-> Len(RowAt(t, q))]]
WalkEvent(ev) ==
    LET ps == AllRows(ev.tree) IN
    /\ ev.out.ok
    /\ Post(ev).rows = [i \in DOMAIN ps |-> [p |-> ps[i], row |-> RowAt(ev.tree, ps[i]), up |-> WayUp(ev.tree, ps[i])]]
    /\ \A i \in DOMAIN Post(ev).marks :
            LET m == Post(ev).marks[i]
                row == RowAt(ev.tree, m.p)
            IN m.tree = Splice(ev.tree, m.p, Len(row), Len(row), <<Sym("MARK")>>)

TextEvent(ev) == ev.out.ok /\ Post(ev) = PrintRow(ev.tree)

Accepts(t, ev) ==
    CASE ev.op = "load"  -> TRUE
      [] ev.op = "edit"  -> EditEvent(t, ev)
      [] ev.op = "back"  -> BackEvent(ev)
      [] ev.op = "again" -> AgainEvent(ev)
      [] ev.op = "make"  -> MakeEvent(ev)
      [] ev.op = "shift" -> ShiftEvent(ev)
      [] ev.op = "order" -> OrderEvent(ev)
      [] ev.op = "span"  -> SpanEvent(ev)
      [] ev.op = "walk"  -> WalkEvent(ev)
      [] ev.op = "text"  -> TextEvent(ev)

(* ----------------------------- the behaviour --------------------------- *)
(* where a worker may start: at the first line of a history / observation   *)
IsStart(i) == Log[i].op \notin {"edit", "back", "again", "make"}
FirstStart(i) == LET S == {j \in i..Min2(N, i + 200) : IsStart(j)} IN IF S = {} THEN N + 1 ELSE SetMin(S)
Starts == {FirstStart(1 + ((k - 1) * N) \div Chunks) : k \in 1..Chunks}

Adopt(ev, t) ==
    IF ev.op = "load" THEN ev.tree
    ELSE IF ev.op \in {"edit", "back"} /\ ev.out.ok THEN Post(ev) ELSE t

Init == l \in Starts /\ tree = <<>> /\ l <= N
Next == /\ l < N /\ (l + 1) \notin Starts
        /\ l' = l + 1
        /\ tree' = Adopt(Log[l], tree)
Spec == Init /\ [][Next]_vars

Accepted == l <= N => Accepts(tree, Log[l])
=============================================================================
