------------------------------ MODULE SerialMC ------------------------------
(***************************************************************************)
(* Serialized texts of all documents of a bounded size, and every text one  *)
(* corruption away from them.                                               *)
(***************************************************************************)
EXTENDS Serial, TLC, Json

CONSTANTS Mode, MaxNodes

S(k, w, h) == Shape(k, w, h)
Shapes ==
    CASE Mode = "round" -> FixedShapes \cup {S("table", 1, 1), S("table", 2, 1), S("table", 1, 2), S("table", 2, 2)}
      [] OTHER -> FixedShapes \cup {S("table", 2, 2), S("table", 3, 1)}
Symbols == CASE Mode = "round" -> {Sym("x"), Sym("\"\\"), Sym("E\n"), Sym("")} [] OTHER -> {Sym("x")}

VARIABLE tree
Empties(s) == Box(s.k, s.w, [q \in 1..(s.w * s.h) |-> <<>>])
RECURSIVE Nest(_, _)
Nest(d, i) == IF d = 0 THEN <<Sym("x")>>
              ELSE <<CASE i % 3 = 0 -> Box("sup", 1, <<Nest(d - 1, i + 1)>>)
                       [] i % 3 = 1 -> Box("frac", 1, <<<<>>, Nest(d - 1, i + 1)>>)
                       [] i % 3 = 2 -> Box("table", 1, <<Nest(d - 1, i + 1)>>)>>
Init == IF Mode = "deep" THEN \E d \in (1..20) \cup {25} : tree = Nest(d, 0) ELSE tree = <<>>
Next == /\ Mode # "deep"
        /\ Size(tree) < MaxNodes
        /\ \E p \in RangeOf(AllRows(tree)) : \E o \in 0..Len(RowAt(tree, p)) :
              \E n \in Symbols \cup {Empties(s) : s \in Shapes} :
              tree' = Apply(tree, RowIns(p, o, <<n>>))
Spec == Init /\ [][Next]_tree

(* ----------------------------- corruptions ----------------------------- *)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Before(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Set(s, i, x) == [s EXCEPT ![i] = x]

Tokens == {P("{"), P("}"), P("["), P("]"), P(","), P(":"), [t |-> "s", v |-> "Symbol"], [t |-> "s", v |-> "values"],
           [t |-> "n", v |-> "0"], [t |-> "n", v |-> "2"], [t |-> "l", v |-> "null"]}
TokenWrong(ts) ==
    {Without(ts, i) : i \in DOMAIN ts}
    \cup {SubSeq(ts, 1, i) : i \in 0..(Len(ts) - 1)}
    \cup {Before(ts, i, ts[i]) : i \in DOMAIN ts}
    \cup {Set(Set(ts, i, ts[i + 1]), i + 1, ts[i]) : i \in 1..(Len(ts) - 1)}
    \cup {Set(ts, i, x) : i \in DOMAIN ts, x \in Tokens}
    \cup {Append(ts, x) : x \in Tokens}

Numbers == {"0", "1", "2", "3", "4", "-1", "1.5", "18446744073709551616"}
Others == {JLit("null"), JLit("true"), JStr("x"), JStr("Table"), JStr("Fraction"), JStr("Matrix"), JArr(<<>>), JObj(<<>>),
           JArr(<<JNum("1")>>), RowJson(<<>>), NodeJson(Sym("y"))} \cup {JNum(n) : n \in Numbers}
Keys == {"Symbol", "Container", "values", "width", "version", "data", "symbol", ""}
RECURSIVE ValueWrong(_)
ValueWrong(j) ==    \* j with one part of it changed
    (Others \ {j})
    \cup UNION {{[j EXCEPT !.e[i].x = x] : x \in ValueWrong(j.e[i].x)} : i \in DOMAIN j.e}
    \cup {[j EXCEPT !.e = Without(j.e, i)] : i \in DOMAIN j.e}
    \cup {[j EXCEPT !.e = Before(j.e, i, j.e[i])] : i \in DOMAIN j.e}
    \cup {[j EXCEPT !.e = Set(Set(j.e, i, j.e[i + 1]), i + 1, j.e[i])] : i \in 1..(Len(j.e) - 1)}
    \cup (IF j.t = "obj" THEN UNION {{[j EXCEPT !.e[i].k = k] : k \in Keys} : i \in DOMAIN j.e} ELSE {})

(* -------------------------------- cases -------------------------------- *)
Coded(ts) == [i \in DOMAIN ts |-> IF ts[i].t = "p" THEN ts[i].v ELSE ts[i].t \o ":" \o ts[i].v]
Case(ts, extra) == LET x == Read(ts) IN PrintT("CASE " \o ToJson([op |-> "read", tokens |-> Coded(ts), want |-> x.r, nodes |-> x.v, depth |-> extra]))
RECURSIVE Nesting(_)
Nesting(row) == SetMax({0} \cup {1 + SetMax({0} \cup {Nesting(row[i].c[j]) : j \in DOMAIN row[i].c}) : i \in {i \in DOMAIN row : ~IsSym(row[i])}})
Facet ==
    LET t == IF Mode \in {"round", "deep"} THEN tree ELSE Named(tree)
        j == Envelope(t)
        ts == Flatten(j)
    IN /\ AsJson(ts) = j
       /\ Read(ts) = Ok(t)
       /\ CASE Mode \in {"round", "deep"} -> PrintT("CASE " \o ToJson([op |-> "serial", nodes |-> t, tokens |-> Coded(ts), depth |-> Nesting(t)]))
            [] Mode = "token" -> \A x \in TokenWrong(ts) : Case(x, Nesting(t))
            [] Mode = "value" -> \A x \in ValueWrong(j) : Case(Flatten(x), Nesting(t))
TypeOk == WellFormed(tree) /\ NoEmptyGrid(tree)
=============================================================================
