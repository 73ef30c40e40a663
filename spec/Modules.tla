------------------------------- MODULE Modules ------------------------------
(***************************************************************************)
(* What grammar modules bring along besides the grammar itself: the names   *)
(* of their rules, and the rules autocomplete offers.                       *)
(***************************************************************************)
EXTENDS Parser, TLC
A == INSTANCE Autocomplete

(* the symbols a module understands on their own *)
Alone(ops) == {ops[i].t[1] : i \in {k \in DOMAIN ops : Len(ops[k].t) = 1}}
Claims(m) ==
    LET l == Module(m) IN
    Alone(l.pre) \cup Alone(l.inf) \cup Alone(l.post) \cup Alone(l.const)
    \cup (IF l.names THEN {"x", "l", "s", "u", "m"} ELSE {}) \cup (IF l.numbers THEN {"1"} ELSE {})
    \cup (IF l.strings THEN {"\""} ELSE {}) \cup (IF l.round \/ l.calls THEN {"(", ")"} ELSE {})

(* the names of its rules *)
OpNames(l) == {l.pre[i].n : i \in DOMAIN l.pre} \cup {l.inf[i].n : i \in DOMAIN l.inf} \cup {l.post[i].n : i \in DOMAIN l.post}
              \cup {l.const[i].n : i \in DOMAIN l.const}
RuleNames(m) ==
    CASE m = "core"       -> {"Core::Variable", "Core::RoundBrackets"}
      [] m = "arithmetic" -> OpNames(Module(m)) \cup {"Arithmetic::Number"}
      [] m = "function"   -> {"Function::FunctionApplication"}
      [] m = "string"     -> {"String::String"}
      [] m = "crowd"      -> {"Crowd::R" \o ToString(i) : i \in 0..299}
      [] OTHER            -> OpNames(Module(m))
BuiltInNames == {"BuiltIn::Operator", "BuiltIn::Whitespaces", "BuiltIn::Whitespace", "BuiltIn::Nothing", "BuiltIn::Fraction", "BuiltIn::Root",
                 "BuiltIn::Table", "BuiltIn::Sup", "BuiltIn::Sub", "Error::MissingOperator", "Error::MissingToken", "Error::UnknownToken"}

(* what it offers to complete *)
Rule(text, result) == [text |-> text, result |-> result]
Spelled(s) == [i \in 1..Len(s) |-> Sym(SubSeq(s, i, i))]
E1(k, n) == <<Box(k, 1, [i \in 1..n |-> <<>>])>>
Rules(m) ==
    CASE m = "arithmetic"  -> <<Rule("/", E1("frac", 2)), Rule("sqrt", <<Box("root", 2, <<<<>>, <<>>>>)>>)>>
      [] m = "calculus"    -> <<Rule("infinity", <<Sym("@INF")>>), Rule("lim", Spelled("lim")), Rule("limsup", Spelled("limsup")),
                                Rule("liminf", Spelled("liminf")), Rule("sum", <<Sym("@SUM")>>), Rule("integral", <<Sym("@INT")>>),
                                Rule("integrate", <<Sym("@INT")>>)>>
      [] m = "collections" -> <<Rule("vector", E1("table", 1)), Rule("matrix", E1("table", 1))>>
      [] m = "comparison"  -> <<Rule(">=", <<Sym("@GE")>>), Rule("<=", <<Sym("@LE")>>)>>
      [] OTHER             -> <<>>
BuiltInOffers == <<Rule("^", E1("sup", 1)), Rule("_", E1("sub", 1))>>
RECURSIVE RulesOf(_)
RulesOf(ms) == IF ms = <<>> THEN <<>> ELSE Rules(ms[1]) \o RulesOf(Tail(ms))
OffersOf(ms) == BuiltInOffers \o RulesOf(ms)
=============================================================================
