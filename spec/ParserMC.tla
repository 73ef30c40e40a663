------------------------------ MODULE ParserMC ------------------------------
(***************************************************************************)
(* All rows of a bounded length over an alphabet. Relates the three views   *)
(* of the grammar to each other and prints the rows for the implementation. *)
(***************************************************************************)
EXTENDS Parser, TLC, Json

CONSTANTS Lang, Alphabet, MaxLen

VARIABLE row
Syms(S) == {Sym(s) : s \in S}
X == <<Sym("x")>>
Sup(r) == Box("sup", 1, <<r>>)
Sub(r) == Box("sub", 1, <<r>>)
Rows(S, n) == {[i \in 1..k |-> Sym(f[i])] : k \in 0..n, f \in [1..n -> S]}
Nodes ==
    CASE Alphabet = "ops"      -> Syms({"x", "1", "+", "-", "*", "<", "=", "!"})
      [] Alphabet = "logic"    -> Syms({"x", "@AND", "@NOT", "@IMP", "@EQV", "@TOP", "@GE", ","})
      [] Alphabet = "calculus" -> Syms({"x", "@SUM", "@INT", "@INF", "+", "*", "^"})
      [] Alphabet = "more"     -> Syms({"x", "/", "@OR", "@LE", ">", "@BOT", "-"})
      [] Alphabet = "brackets" -> Syms({"x", "(", ")", "+", "!", ","})
      [] Alphabet = "lexing"   -> Syms({"l", "i", "m", "1", ".", "+", "_"})
      (* symbols that are nearly digits, names or operators *)
      [] Alphabet = "odd"      -> Syms({"x", "1", "@HALF", "@THREE", "b+", "+"})
      [] Alphabet = "names"    -> Syms({"l", "i", "m", "s", "u", "p"})
      [] Alphabet = "strings"  -> Syms({"\"", "\\", "x", "(", ")"}) \cup {Sup(X)}
      [] Alphabet = "spaces"   -> Syms({" ", "x", "+", "(", ")", "."})
      [] Alphabet = "scripts"  -> Syms({"x", "@SUM", "+", " ", "("}) \cup {Sup(X), Sub(<<Sym("+")>>)}
      [] Alphabet = "boxes"    -> Syms({"x", "+"}) \cup {Box("frac", 1, <<X, <<>>>>), Box("root", 2, <<<<>>, <<Sym("1"), Sym("+"), Sym("x")>>>>),
                                    Box("table", 2, <<X, <<Sym("(")>>, <<Sup(X)>>, <<>>>>), Sup(<<Box("frac", 1, <<X, <<Sym("*")>>>>)>>), Sub(X)}
      (* every short content of every cell *)
      [] Alphabet = "cells"    -> LET C == Rows({"2", "x", " ", "+"}, 2) IN
                                  {Box("frac", 1, <<a, b>>) : a, b \in C} \cup {Box("root", 2, <<a, b>>) : a, b \in C}
                                  \cup {Box("table", 2, <<a, b>>) : a, b \in C} \cup {Box("table", 1, <<a, b>>) : a, b \in C}
                                  \cup {Sup(a) : a \in C} \cup {Sub(a) : a \in C}
      [] Alphabet = "own"      -> Syms({"x", "+", "*", "<", ">", "-", "~", "!", "?"})
      [] Alphabet = "ownlong"  -> Syms({"x", "\\", "q", ":", "=", "|"})
Plain == Alphabet \in {"ops", "logic", "calculus", "more", "own"}
L == Language(Lang)
Touching == \E i \in 1..(Len(row) - 1) : {row[i].v, row[i + 1].v} \subseteq {"x", "1"}   \* "x1" is one name

Init == row = <<>>
Next == Len(row) < MaxLen /\ \E n \in Nodes : row' = Append(row, n)
Spec == Init /\ [][Next]_row

RECURSIVE Absences(_), Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Absences(t) == (IF t.name = Absent.n THEN 1 ELSE 0) + (IF t.kind = "kids" THEN Sum([i \in DOMAIN t.kids |-> Absences(t.kids[i])]) ELSE 0)
Facet ==
    LET e == Expr(L, row, 0, 0, FALSE)
        x == Expr(Lax(L), row, 0, 0, FALSE) IN
    (* the views agree on what is well formed *)
    /\ e.ok <=> Faultless(L, row)
    /\ e.ok => /\ e.i = Len(row)
               /\ Frontier(e.t) = TextOf(NoSpaces(row)) \/ \E i \in DOMAIN row : row[i] = Sym("\"")
               /\ Grouped(e.t)
    (* the grouping is the only one the binding powers allow *)
    /\ Plain /\ ~Touching => {t \in Bracketings(L, row, 0, Len(row)) : Grouped(t)} = (IF e.ok THEN {e.t} ELSE {})
    (* a row in which operators are missing has a tree as well, in which
       nothing else is wrong: two operands between which a gap lies *)
    /\ e.ok => x.ok /\ Shaped(e.t, x.t)
    /\ x.ok => /\ x.i = Len(row)
               /\ Frontier(x.t) = TextOf(NoSpaces(row)) \/ \E i \in DOMAIN row : row[i] = Sym("\"")
               /\ Grouped(x.t)
               /\ Cardinality(Scan(L, row).facts.gaps) = Absences(x.t)
    /\ PrintT("CASE " \o ToJson([op |-> "parse", lang |-> Lang, row |-> row]))
TypeOk == WellFormed(row)
=============================================================================
