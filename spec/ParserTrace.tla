----------------------------- MODULE ParserTrace ----------------------------
(***************************************************************************)
(* Checks syntax trees the implementation produced.                         *)
(***************************************************************************)
EXTENDS Modules, SyntaxText, TLC, Json, IOUtils
CONSTANTS Property, Chunks

Log == TLCEval(ndJsonDeserialize(IOEnv.EVENTS))
N == Len(Log)
VARIABLE l
Chunk(k) == 1 + ((k - 1) * N) \div Chunks
Init == l \in {Chunk(k) : k \in 1..Chunks} /\ l <= N
Next == l < N /\ (l + 1) \notin {Chunk(k) : k \in 1..Chunks} /\ l' = l + 1
Spec == Init /\ [][Next]_l

Whats(ev) == Language(ev.lang)
Tree1(ev) == ev.tree.v[1]
(* a parser of some modules knows their rules and no others *)
Title(m) == CASE m = "core" -> "Core" [] m = "arithmetic" -> "Arithmetic" [] m = "calculus" -> "Calculus" [] m = "collections" -> "Collections"
              [] m = "comparison" -> "Comparison" [] m = "function" -> "Function" [] m = "logic" -> "Logic" [] m = "string" -> "String"
              [] m = "own" -> "Own" [] m = "crowd" -> "Crowd" [] m \in {"one", "two"} -> "Twin" \* a module may be called like another one
Offers(ev) ==
    LET rules == OffersOf(ev.mods)
        o == A!Offered(rules, ev.row, Len(ev.row), 1)
    IN {[text |-> rules[x.rule].text, result |-> rules[x.rule].result, k |-> x.k, whole |-> A!Complete(rules, x)] : x \in o}
KnowsItsModules(ev) ==
    LET L == TLCEval(LanguageOf(ev.mods))
        t == Tree1(ev)
    IN /\ ev.tree.ok /\ ev.offers.ok
       /\ Covers(ev.row, t)
       /\ Shaped(Whole(Lax(L), ev.row), t)
       /\ Local(L, ev.row, t)
       /\ RangeOf(ev.offers.v[1]) = Offers(ev)
       /\ Len(ev.modules) = Len(ev.mods) + 1
       /\ ev.modules[1].name = "BuiltIn" /\ RangeOf(ev.modules[1].rules) = BuiltInNames /\ ev.modules[1].back
       /\ \A i \in DOMAIN ev.mods :
            LET m == ev.modules[i + 1] IN m.name = Title(ev.mods[i]) /\ RangeOf(m.rules) = RuleNames(ev.mods[i]) /\ m.back
Accepts(ev) ==
    CASE Property = "C25" -> ev.tree.ok /\ Covers(ev.row, Tree1(ev))
      [] Property = "C26" -> ev.tree.ok /\ Shaped(Whole(Lax(Whats(ev)), ev.row), Tree1(ev))
      [] Property = "C27" -> ev.tree.ok /\ Local(Whats(ev), ev.row, Tree1(ev))
      [] Property = "C28" -> /\ ev.tree.ok
                             /\ \A i \in DOMAIN ev.same : ev.same[i] = ev.tree
                             /\ {ev.cells[i].p : i \in DOMAIN ev.cells} = {p \in RangeOf(AllRows(ev.row)) : p # <<>>}
                             /\ \A i \in DOMAIN ev.cells :
                                    LET c == ev.cells[i] IN c.tree.ok /\ CellTree(Tree1(ev), c.p) = c.tree.v
      [] Property = "C36" -> KnowsItsModules(ev)
      [] Property = "C34" -> ev.tree.ok /\ ev.text.ok /\ ev.text.v = <<Printed(Tree1(ev))>>
Accepted == l <= N => Accepts(Log[l])
=============================================================================
