------------------------------ MODULE ModulesMC -----------------------------
(***************************************************************************)
(* Every selection of grammar modules, in every order, with every short row *)
(* over the symbols they claim.                                             *)
(***************************************************************************)
EXTENDS Modules, TLC, Json

CONSTANTS Which, Alphabet, MaxMods, MaxLen

VARIABLES mods, row
All == CASE Which = "std" -> {StdModules[i] : i \in DOMAIN StdModules}
         [] Which = "page" -> {StdModules[i] : i \in DOMAIN StdModules}
         [] Which = "clash" -> {"core", "arithmetic", "calculus", "one", "two"}
         [] Which = "crowd" -> {"core", "one", "crowd"}
         [] Which = "calls" -> {"core", "function", "arithmetic", "string"}
Syms(S) == {Sym(s) : s \in S}
Nodes == CASE Alphabet = "each"  -> Syms({"x", "1", "+", "!", "@SUM", "@INF", ",", "=", "@AND", "@TOP", "\"", "(", ")", "."})
           [] Alphabet = "page"  -> Syms({"x", "1", "+", "@INF", "(", ">", "s", "u", "m"}) \cup {Box("frac", 1, <<<<Sym("1")>>, <<Sym("=")>>>>)}
           [] Alphabet = "clash" -> Syms({"x", "l", "#", "+", "-", "!", "@INF"})
           [] Alphabet = "calls" -> Syms({"x", "1", "(", ")", " ", "+", "\""})
Init == mods = <<>> /\ row = <<>>
Select == row = <<>> /\ Len(mods) < MaxMods /\ \E m \in (IF Which = "page" THEN All ELSE All \ RangeOf(mods)) :   \* (a page may add a module again)
            mods' = Append(mods, m) /\ row' = row
Write == Len(row) < MaxLen /\ \E n \in Nodes : row' = Append(row, n) /\ mods' = mods
Next == Select \/ Write
Spec == Init /\ [][Next]_<<mods, row>>

L == LanguageOf(mods)
(* strings, decimal points and names take in what follows *)
Quoted == \E i \in DOMAIN row : row[i].v \in {"\"", "."} \/ (i > 1 /\ row[i].v = "1" /\ row[i - 1].v \in {"x", "1", "s", "u", "m"})
Clashes == RangeOf(mods) \cap {"one", "two"} # {}
Sorted(ms) == SelectSeq(StdModules, LAMBDA m : m \in RangeOf(ms))
Facet ==
    LET e == Expr(L, row, 0, 0, FALSE)
        s == Scan(L, row)
    IN
    /\ e.ok <=> Faultless(L, row)
    /\ e.ok => e.i = Len(row) /\ Grouped(e.t)
    (* what no selected module claims is not understood, and only that, the dot, quotes, brackets without a partner
       and what needs what stands next to it *)
    /\ ~Quoted => \A i \in DOMAIN row :
         LET known == row[i].k = "frac" \/ row[i].v = " " \/ \E m \in RangeOf(mods) : row[i].v \in Claims(m) IN
         /\ ~known => (i - 1) \in s.facts.unknown
         /\ known /\ row[i].v \notin {"(", ")", " "} => (i - 1) \notin s.facts.unknown
    (* the order does not matter where no symbols are claimed twice *)
    /\ ~Clashes => LET o == LanguageOf(Sorted(mods)) IN Expr(o, row, 0, 0, FALSE) = e /\ Scan(o, row) = s
    /\ PrintT("CASE " \o ToJson([op |-> "modules", mods |-> mods, row |-> row]))
TypeOk == WellFormed(row)
=============================================================================
