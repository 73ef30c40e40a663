--------------------------- MODULE AutocompleteMC ---------------------------
(***************************************************************************)
(* Which rules are offered, for every row of a bounded length over symbols  *)
(* of zero, one and several characters (E, I, W stand for characters of     *)
(* several bytes) and containers, at every place of the row.                *)
(***************************************************************************)
EXTENDS Autocomplete, TLC, Json

CONSTANTS MaxLen, Symbols, MaxMin

VARIABLE row
Alphabet ==
    CASE Symbols = "few"  -> {Sym("a"), Sym("b"), Sym("ab"), Box("sup", 1, <<<<Sym("a")>>>>)}
      [] Symbols = "odd"  -> {Sym("a"), Sym("E"), Sym("aE"), Sym("I"), Sym(""), Sym("ba")}
Texts == <<"a", "ab", "aab", "abab", "aEa", "Ea", "EE", "IaE", "IW", "baba", "E", "ab", "EE">>
Rules == [i \in DOMAIN Texts |-> [text |-> Texts[i], result |-> <<>>]]

Init == row = <<>>
Next == Len(row) < MaxLen /\ \E n \in Alphabet : row' = Append(row, n)
Spec == Init /\ [][Next]_row

(* the same, said about the rule's text instead of the row *)
PrefixEnds(text, nodes, o) ==
    {x \in (1..Len(text)) \X (1..o) : AllSymbols(nodes, o, x[2]) /\ LastText(nodes, o, x[2]) = SubSeq(text, 1, x[1])}
DesignOk ==
    \A o \in 0..Len(row) : \A m \in 0..MaxMin :
        LET S == Offered(Rules, row, o, m) IN
        /\ S = UNION {{[rule |-> r, k |-> x[2], text |-> SubSeq(Texts[r], 1, x[1])]
                        : x \in {y \in PrefixEnds(Texts[r], row, o) : y[2] >= m}} : r \in DOMAIN Rules}
        /\ \A x \in S : x.k >= m /\ x.text # ""
        (* what is behind the place takes no part *)
        /\ S = Offered(Rules, SubSeq(row, 1, o), o, m)

SetSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Facet ==
    /\ DesignOk
    /\ \A o \in 0..Len(row) :
        PrintT("CASE " \o ToJson([op |-> "offer", row |-> row, o |-> o, rules |-> Texts,
                                  wants |-> [i \in 1..(MaxMin + 1) |-> [min |-> i - 1, offers |-> SetSeq(Offered(Rules, row, o, i - 1))]]]))
TypeOk == WellFormed(row)
=============================================================================
