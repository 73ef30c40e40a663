------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The mathematical grammar: what a syntax tree of a row may look like.     *)
(*                                                                         *)
(* A syntax tree is a record [name, a, b, kind, w, kids, syms]: kind "leaf" *)
(* (the texts syms of the nodes a..b-1 of the row), "rows" (the container   *)
(* at a, one kid per cell, w columns) or "kids".                            *)
(*                                                                         *)
(* Three views that do not know of each other:                              *)
(*   Covers   the tree accounts for every node of the row exactly once      *)
(*   Expr     the tree of a well formed row, by binding powers              *)
(*   Scan     what is wrong with a row, found by one pass from left to      *)
(*            right: matching brackets, unknown tokens, missing operands    *)
(*            and missing operators; and Local, what the tree says of each  *)
(***************************************************************************)
EXTENDS InputTree

(* ------------------------------- languages ------------------------------ *)
(* A language is put together from modules, of which the later ones win where
   two claim the same symbols. pre, inf, post: operators [t, v, n, r], their
   symbols, binding power, name and (infix) whether they group to the right;
   const: atoms of one symbol;  names, numbers, strings, round: has it variables,
   numbers, strings, round brackets?  calls: may brackets follow an operand? *)
Opr(t, v, n) == [t |-> t, v |-> v, n |-> n, r |-> FALSE]
Rgt(t, v, n) == [t |-> t, v |-> v, n |-> n, r |-> TRUE]
Nothing == [pre |-> <<>>, inf |-> <<>>, post |-> <<>>, const |-> <<>>, names |-> FALSE, numbers |-> FALSE, strings |-> FALSE, round |-> FALSE, calls |-> FALSE, lax |-> FALSE]
Module(m) ==
    CASE m = "core"        -> [Nothing EXCEPT !.names = TRUE, !.round = TRUE]
      [] m = "arithmetic"  -> [Nothing EXCEPT !.numbers = TRUE,
                                 !.pre = <<Opr(<<"+">>, 400, "Arithmetic::Add"), Opr(<<"-">>, 400, "Arithmetic::Subtract")>>,
                                 !.inf = <<Opr(<<"+">>, 100, "Arithmetic::Add"), Opr(<<"-">>, 100, "Arithmetic::Subtract"),
                                           Opr(<<"*">>, 200, "Arithmetic::Multiply"), Opr(<<"/">>, 200, "Arithmetic::Divide")>>,
                                 !.post = <<Opr(<<"^">>, 850, "Arithmetic::Exponent"), Opr(<<"!">>, 600, "Arithmetic::Factorial")>>]
      [] m = "calculus"    -> [Nothing EXCEPT !.const = <<Opr(<<"@INF">>, 0, "Calculus::Infinity")>>,
                                 !.pre = <<Opr(<<"l", "i", "m">>, 100, "Calculus::Lim"), Opr(<<"l", "i", "m", "s", "u", "p">>, 100, "Calculus::LimSup"),
                                           Opr(<<"l", "i", "m", "i", "n", "f">>, 100, "Calculus::LimInf"),
                                           Opr(<<"@SUM">>, 100, "Calculus::Sum"), Opr(<<"@INT">>, 100, "Calculus::Integral")>>]
      [] m = "collections" -> [Nothing EXCEPT !.inf = <<Opr(<<",">>, 50, "Collections::Tuple")>>]
      [] m = "comparison"  -> [Nothing EXCEPT !.inf = <<Opr(<<"=">>, 40, "Comparison::Equals"), Opr(<<">">>, 50, "Comparison::GreaterThan"),
                                           Opr(<<"<">>, 50, "Comparison::LessThan"), Opr(<<"@GE">>, 50, "Comparison::GreaterThanOrEquals"),
                                           Opr(<<"@LE">>, 50, "Comparison::LessThanOrEquals")>>]
      [] m = "function"    -> [Nothing EXCEPT !.calls = TRUE]
      [] m = "logic"       -> [Nothing EXCEPT !.const = <<Opr(<<"@TOP">>, 0, "Logic::True"), Opr(<<"@BOT">>, 0, "Logic::False")>>,
                                 !.inf = <<Opr(<<"@AND">>, 100, "Logic::And"), Opr(<<"@OR">>, 100, "Logic::Or"), Opr(<<"@NOT">>, 100, "Logic::Not"),
                                           Opr(<<"@EQV">>, 100, "Logic::Equivalent"), Opr(<<"@IMP">>, 100, "Logic::Implies")>>]
      [] m = "string"      -> [Nothing EXCEPT !.strings = TRUE]
      (* modules of the driver's own, registered through ParseModule *)
      [] m = "own"         -> [Nothing EXCEPT   \* every associativity, with equal and unequal powers
                                 !.pre = <<Opr(<<"-">>, 150, "Own::Minus"), Opr(<<"~">>, 50, "Own::Tilde"), Opr(<<"\\", "q">>, 300, "Own::Escaped")>>,
                                 !.inf = <<Opr(<<"+">>, 100, "Own::Plus"), Opr(<<"*">>, 200, "Own::Times"), Opr(<<":", "=">>, 30, "Own::Define"),
                                           Rgt(<<"<">>, 100, "Own::To"), Rgt(<<">">>, 200, "Own::Power")>>,
                                 !.post = <<Opr(<<"!">>, 150, "Own::Bang"), Opr(<<"?">>, 50, "Own::Maybe"), Opr(<<"|", "|">>, 70, "Own::Norm")>>]
      [] m = "one"         -> [Nothing EXCEPT   \* claims what others claim
                                 !.pre = <<Opr(<<"-">>, 50, "One::Minus"), Opr(<<"l">>, 60, "One::Letter")>>,
                                 !.inf = <<Opr(<<"#">>, 100, "One::Hash"), Rgt(<<"+">>, 300, "One::Plus")>>,
                                 !.post = <<Opr(<<"!">>, 50, "One::Bang")>>, !.const = <<Opr(<<"@INF">>, 0, "One::Star")>>]
      [] m = "crowd"       -> Nothing
      [] m = "two"         -> [Nothing EXCEPT
                                 !.inf = <<Rgt(<<"#">>, 250, "Two::Hash"), Opr(<<"#", "#">>, 20, "Two::hash")>>,
                                 !.post = <<Opr(<<"!">>, 900, "Two::Bang"), Opr(<<"!", "!">>, 30, "Two::Double")>>]
Joined(a, b) == [pre |-> a.pre \o b.pre, inf |-> a.inf \o b.inf, post |-> a.post \o b.post, const |-> a.const \o b.const,
                 names |-> a.names \/ b.names, numbers |-> a.numbers \/ b.numbers, strings |-> a.strings \/ b.strings,
                 round |-> a.round \/ b.round, calls |-> a.calls \/ b.calls, lax |-> a.lax \/ b.lax]
RECURSIVE LanguageOf(_)
LanguageOf(ms) == IF ms = <<>> THEN Nothing ELSE Joined(Module(ms[1]), LanguageOf(Tail(ms)))
StdModules == <<"core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string">>
Std == LanguageOf(StdModules)
Own == LanguageOf(<<"core", "function", "own">>)
Language(x) == IF x = "own" THEN Own ELSE Std
(* Operands next to each other are a fault. Where only that is wrong with a row,
   its tree is the one of an operator nobody wrote, that groups like a sum. *)
Lax(L) == [L EXCEPT !.lax = TRUE]
Absent == Opr(<<>>, 100, "Error::MissingOperator")

(* the strength on either side of an operator: 2v weak, 2v+1 strong *)
Weak(v) == 2 * v
Strong(v) == 2 * v + 1
LeftOf(o) == IF o.r THEN Strong(o.v) ELSE Weak(o.v)      \* of an infix operator
RightOf(o) == IF o.r THEN Weak(o.v) ELSE Strong(o.v)

(* --------------------------------- tokens ------------------------------- *)
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Numerals == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
CharsOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
StartsName(s) == s # "" /\ SubSeq(s, 1, 1) \in Letters /\ CharsOf(s) \subseteq Letters \cup Numerals \cup {"_"}
GoesOn(s) == s = "@THREE" \/ CharsOf(s) \subseteq Letters \cup Numerals \cup {"_"}
IsDigits(s) == CharsOf(s) \subseteq Numerals   \* (an Arabic digit goes on with names, but is in no number)

(* everything is zero based: the node at i is row[i + 1] *)
AtSym(row, i) == i < Len(row) /\ IsSym(row[i + 1])
Is(row, i, s) == AtSym(row, i) /\ row[i + 1].v = s
IsKind(row, i, ks) == i < Len(row) /\ row[i + 1].k \in ks
Has(row, i, t) == \A k \in DOMAIN t : Is(row, i + k - 1, t[k])
RECURSIVE SkipSp(_, _)
SkipSp(row, i) == IF Is(row, i, " ") THEN SkipSp(row, i + 1) ELSE i
RECURSIVE SkipScripts(_, _)
SkipScripts(row, i) == IF IsKind(row, i, {"sup", "sub"}) THEN SkipScripts(row, SkipSp(row, i + 1)) ELSE i
RECURSIVE RunOn(_, _, _)
RunOn(row, i, digits) == IF AtSym(row, i) /\ (IF digits THEN IsDigits(row[i + 1].v) ELSE GoesOn(row[i + 1].v)) THEN RunOn(row, i + 1, digits) ELSE i
RECURSIVE StringEnd(_, _)   \* the place behind the closing quote, -1: there is none
StringEnd(row, i) ==
    IF ~AtSym(row, i) THEN -1
    ELSE IF row[i + 1].v = "\"" THEN i + 1
    ELSE IF row[i + 1].v = "\\" THEN (IF AtSym(row, i + 1) THEN StringEnd(row, i + 2) ELSE -1)
    ELSE StringEnd(row, i + 1)
NumberEnd(row, i) ==
    LET j == RunOn(row, i, TRUE) IN
    IF Is(row, j, ".") /\ AtSym(row, j + 1) /\ IsDigits(row[j + 2].v) THEN RunOn(row, j + 1, TRUE) ELSE j

FirstOp(ops, row, i) ==
    LET hits == {k \in DOMAIN ops : Has(row, i, ops[k].t)} IN
    IF hits = {} THEN <<>> ELSE <<ops[CHOOSE k \in hits : \A m \in hits : m <= k]>>
(* an atom other than brackets: <<>> or <<name, end>> *)
Atom(L, row, i) ==
    IF i >= Len(row) THEN <<>>
    ELSE IF IsKind(row, i, {"frac"}) THEN <<"BuiltIn::Fraction", i + 1>>
    ELSE IF IsKind(row, i, {"root"}) THEN <<"BuiltIn::Root", i + 1>>
    ELSE IF IsKind(row, i, {"table"}) THEN <<"BuiltIn::Table", i + 1>>
    ELSE IF ~AtSym(row, i) THEN <<>>
    ELSE LET s == row[i + 1].v IN
         IF L.strings /\ s = "\"" THEN (IF StringEnd(row, i + 1) = -1 THEN <<>> ELSE <<"String::String", StringEnd(row, i + 1)>>)
         ELSE IF \E k \in DOMAIN L.const : L.const[k].t = <<s>>
              THEN <<FirstOp(L.const, row, i)[1].n, i + 1>>
         ELSE IF L.names /\ StartsName(s) THEN <<"Core::Variable", RunOn(row, i + 1, FALSE)>>
         ELSE IF L.numbers /\ IsDigits(s) THEN <<"Arithmetic::Number", NumberEnd(row, i)>>
         ELSE <<>>

(* -------------------------- trees of well formed rows ------------------- *)
(* lp / rp: the strength with which the operator of the node holds on to its
   left / right operand, -1: it has no operand on that side *)
Tree(name, kind, w, kids, syms, lp, rp) == [name |-> name, kind |-> kind, w |-> w, kids |-> kids, syms |-> syms, lp |-> lp, rp |-> rp]
Kids(name, kids) == Tree(name, "kids", 0, kids, <<>>, -1, -1)
Leaf(name, syms) == Tree(name, "leaf", 0, <<>>, syms, -1, -1)
Anything == Tree("?", "?", 0, <<>>, <<>>, -1, -1)
Failed == [ok |-> FALSE, t |-> Anything, i |-> 0]
Texts2(row, i, j) == [k \in 1..(j - i) |-> row[i + k].v]
RECURSIVE JoinAll(_)
JoinAll(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o JoinAll(Tail(ss))
Token(t) == Leaf("BuiltIn::Operator", t)

RECURSIVE Expr(_, _, _, _, _), Operand(_, _, _, _), Loop(_, _, _, _, _, _), Brackets(_, _, _), Scripts(_, _, _, _), Whole(_, _)
Whole(L, row) == LET e == Expr(L, row, 0, 0, FALSE) IN IF e.ok THEN e.t ELSE Anything
RowsNode(L, name, n) == Tree(name, "rows", n.w, [j \in DOMAIN n.c |-> Whole(L, n.c[j])], <<>>, -1, -1)
ScriptName(row, i) == IF row[i + 1].k = "sup" THEN "BuiltIn::Sup" ELSE "BuiltIn::Sub"
(* the sub and superscripts written behind a prefix or infix operator *)
Scripts(L, row, i, op) ==
    IF IsKind(row, i, {"sup", "sub"})
    THEN Scripts(L, row, SkipSp(row, i + 1), Kids(ScriptName(row, i), <<op, RowsNode(L, "BuiltIn::Operator", row[i + 1])>>))
    ELSE [t |-> op, i |-> i]
(* the brackets opening at i: ok, the three (two) kids, the place behind *)
Brackets(L, row, i) ==
    IF Is(row, i + 1, ")") THEN [ok |-> TRUE, kids |-> <<Token(<<"(">>), Token(<<")">>)>>, i |-> i + 2]
    ELSE LET e == Expr(L, row, i + 1, 0, TRUE) IN
         IF e.ok /\ Is(row, e.i, ")") THEN [ok |-> TRUE, kids |-> <<Token(<<"(">>), e.t, Token(<<")">>)>>, i |-> e.i + 1]
         ELSE [ok |-> FALSE, kids |-> <<>>, i |-> 0]
Operand(L, row, i0, close) ==
    LET i == SkipSp(row, i0)
        pre == FirstOp(L.pre, row, i)
        atom == Atom(L, row, i)
    IN IF pre # <<>>
       THEN LET o == pre[1]
                s == Scripts(L, row, SkipSp(row, i + Len(o.t)), Token(o.t))
                r == Expr(L, row, s.i, Strong(o.v), close)
            IN IF r.ok THEN [ok |-> TRUE, t |-> Tree(o.n, "kids", 0, <<s.t, r.t>>, <<>>, -1, Strong(o.v)), i |-> r.i] ELSE Failed
       ELSE IF L.round /\ Is(row, i, "(")
       THEN LET b == Brackets(L, row, i) IN
            IF b.ok THEN [ok |-> TRUE, t |-> Kids("Core::RoundBrackets", b.kids), i |-> SkipSp(row, b.i)] ELSE Failed
       ELSE IF atom # <<>>
       THEN [ok |-> TRUE, i |-> SkipSp(row, atom[2]),
             t |-> IF IsSym(row[i + 1])
                   THEN Leaf(atom[1], IF \E k \in DOMAIN L.const : L.const[k].n = atom[1] THEN <<row[i + 1].v>> ELSE Texts2(row, i, atom[2]))
                   ELSE RowsNode(L, atom[1], row[i + 1])]
       ELSE Failed
Expr(L, row, i, min, close) ==
    LET o == Operand(L, row, i, close) IN IF o.ok THEN Loop(L, row, o.i, min, close, o.t) ELSE Failed
Loop(L, row, i, min, close, left) ==
    LET in == FirstOp(L.inf, row, i)
        po == FirstOp(L.post, row, i)
        done == [ok |-> TRUE, t |-> left, i |-> i]
        infix(o, lp, rp) ==
            IF lp < min THEN done
            ELSE LET s == Scripts(L, row, SkipSp(row, i + Len(o.t)), Token(o.t))
                     r == Expr(L, row, s.i, rp, close)
                 IN IF r.ok THEN Loop(L, row, r.i, min, close, Tree(o.n, "kids", 0, <<left, s.t, r.t>>, <<>>, lp, rp)) ELSE Failed
        postfix(name, v, op, next) ==
            IF Strong(v) < min THEN done
            ELSE Loop(L, row, SkipSp(row, next), min, close, Tree(name, "kids", 0, <<left, op>>, <<>>, Strong(v), -1))
        begins == FirstOp(L.pre, row, i) # <<>> \/ Atom(L, row, i) # <<>> \/ (L.round /\ Is(row, i, "("))
        absent ==
            IF LeftOf(Absent) < min THEN done
            ELSE LET r == Expr(L, row, i, RightOf(Absent), close)
                 IN IF r.ok THEN Loop(L, row, r.i, min, close, Tree(Absent.n, "kids", 0, <<left, Kids("Error::MissingToken", <<>>), r.t>>, <<>>, LeftOf(Absent), RightOf(Absent))) ELSE Failed
    IN IF i >= Len(row) \/ (close /\ Is(row, i, ")")) THEN done
       ELSE IF in # <<>> THEN infix(in[1], LeftOf(in[1]), RightOf(in[1]))
       ELSE IF po # <<>> THEN postfix(po[1].n, po[1].v, Token(po[1].t), i + Len(po[1].t))
       ELSE IF IsKind(row, i, {"sup", "sub"}) THEN postfix(ScriptName(row, i), 1000, RowsNode(L, "BuiltIn::Operator", row[i + 1]), i + 1)
       ELSE IF L.calls /\ Is(row, i, "(")
       THEN LET b == Brackets(L, row, i) IN IF b.ok THEN postfix("Function::FunctionApplication", 800, Kids("BuiltIn::Operator", b.kids), b.i) ELSE Failed
       ELSE IF L.lax /\ begins THEN absent
       ELSE Failed

(* the leaves of a tree, as the texts of the row they stand for *)
RECURSIVE Frontier(_)
Frontier(t) == IF t.kind = "leaf" THEN JoinAll(t.syms) ELSE IF t.kind = "rows" THEN "#" ELSE JoinAll([i \in DOMAIN t.kids |-> Frontier(t.kids[i])])
TextOf(row) == JoinAll([i \in DOMAIN row |-> IF IsSym(row[i]) THEN row[i].v ELSE "#"])
RECURSIVE NoSpaces(_)
NoSpaces(row) == IF row = <<>> THEN <<>> ELSE (IF Is(row, 0, " ") THEN <<>> ELSE <<row[1]>>) \o NoSpaces(Tail(row))

(* Grouping, said of the finished tree: what hangs at the right edge of a
   left operand holds on less strongly than ... and the other way round *)
RECURSIVE RightEdge(_), LeftEdge(_), Grouped(_)
RightEdge(t) == IF t.rp = -1 THEN {} ELSE {t.rp} \cup RightEdge(t.kids[Len(t.kids)])
LeftEdge(t) == IF t.lp = -1 THEN {} ELSE {t.lp} \cup LeftEdge(t.kids[1])
Grouped(t) ==
    /\ t.lp # -1 => \A r \in RightEdge(t.kids[1]) : t.lp < r
    /\ t.rp # -1 => \A l \in LeftEdge(t.kids[Len(t.kids)]) : l >= t.rp
    /\ \A i \in DOMAIN t.kids : Grouped(t.kids[i])
(* every way to put brackets around a row of one-node tokens without spaces,
   brackets and scripts *)
RECURSIVE Bracketings(_, _, _, _)
Bracketings(L, row, i, j) ==
    (IF j = i + 1 /\ Atom(L, row, i) # <<>> THEN {Leaf(Atom(L, row, i)[1], <<row[i + 1].v>>)} ELSE {})
    \cup (IF i + 1 < j
          THEN LET pre == FirstOp(L.pre, row, i)
                   po == FirstOp(L.post, row, j - 1) IN
               (IF pre # <<>> /\ Len(pre[1].t) = 1
                THEN {Tree(pre[1].n, "kids", 0, <<Token(<<row[i + 1].v>>), r>>, <<>>, -1, Strong(pre[1].v)) : r \in Bracketings(L, row, i + 1, j)} ELSE {})
               \cup (IF po # <<>> /\ Len(po[1].t) = 1
                     THEN {Tree(po[1].n, "kids", 0, <<l, Token(<<row[j].v>>)>>, <<>>, Strong(po[1].v), -1) : l \in Bracketings(L, row, i, j - 1)} ELSE {})
          ELSE {})
    \cup UNION {LET in == FirstOp(L.inf, row, k)
                IN IF in = <<>> \/ Len(in[1].t) # 1 THEN {}
                   ELSE {Tree(in[1].n, "kids", 0, <<x[1], Token(<<row[k + 1].v>>), x[2]>>, <<>>, LeftOf(in[1]), RightOf(in[1]))
                          : x \in Bracketings(L, row, i, k) \X Bracketings(L, row, k + 1, j)}
               : k \in (i + 1)..(j - 2)}

(* does a tree of the implementation have the shape? spaces are no shape *)
RECURSIVE Bare(_)
Bare(t) == IF t.name = "BuiltIn::Whitespaces" /\ t.kind = "kids"
           THEN LET inner == {i \in DOMAIN t.kids : t.kids[i].name # "BuiltIn::Whitespace"}
                IN IF Cardinality(inner) = 1 THEN Bare(t.kids[CHOOSE i \in inner : TRUE]) ELSE t
           ELSE t
RECURSIVE Shaped(_, _)
Shaped(want, t0) ==
    \/ want.name = "?"
    \/ LET t == Bare(t0) IN
       /\ t.name = want.name /\ t.kind = want.kind /\ t.syms = want.syms /\ t.w = want.w
       /\ Len(t.kids) = Len(want.kids)
       /\ \A i \in DOMAIN t.kids : Shaped(want.kids[i], t.kids[i])

(* ----------------------------- what is covered -------------------------- *)
RECURSIVE Parts(_)          \* the leaves and containers of a tree, in order
Parts(t) == IF t.kind \in {"leaf", "rows"} THEN <<t>> ELSE Concat([i \in DOMAIN t.kids |-> Parts(t.kids[i])])
RECURSIVE Nested(_)         \* ranges of kids: in order, apart, enclosed
Nested(t) ==
    /\ t.a <= t.b
    /\ t.kind = "kids" => /\ \A i \in DOMAIN t.kids : t.a <= t.kids[i].a /\ t.kids[i].b <= t.b /\ Nested(t.kids[i])
                          /\ \A i \in 1..(Len(t.kids) - 1) : t.kids[i].b <= t.kids[i + 1].a
RECURSIVE Covers(_, _)
Covers(row, t) ==
    LET parts == Parts(t) IN
    /\ Nested(t)
    /\ IF parts = <<>> THEN row = <<>> ELSE parts[1].a = 0 /\ parts[Len(parts)].b = Len(row)
    /\ \A i \in 1..(Len(parts) - 1) : parts[i].b = parts[i + 1].a
    /\ \A i \in DOMAIN parts :
        LET p == parts[i] IN
        /\ p.a < p.b
        /\ IF p.kind = "leaf"
           THEN /\ \A k \in (p.a)..(p.b - 1) : AtSym(row, k)
                /\ p.syms = [k \in 1..(p.b - p.a) |-> row[p.a + k].v]
           ELSE /\ p.b = p.a + 1
                /\ ~IsSym(row[p.a + 1])
                /\ p.w = row[p.a + 1].w
                /\ Len(p.kids) = Len(row[p.a + 1].c)
                /\ \A j \in DOMAIN p.kids : Covers(row[p.a + 1].c[j], p.kids[j])

(* ------------------------------ nested rows ----------------------------- *)
RECURSIVE CellTree(_, _)    \* the subtree of the row at a path: <<>> or <<tree>>
CellTree(t, path) ==
    IF path = <<>> THEN <<t>>
    ELSE LET here == {i \in DOMAIN Parts(t) : Parts(t)[i].kind = "rows" /\ Parts(t)[i].a = path[1][1]}
         IN IF Cardinality(here) # 1 THEN <<>>
            ELSE LET p == Parts(t)[CHOOSE i \in here : TRUE] IN
                 IF path[1][2] < Len(p.kids) THEN CellTree(p.kids[path[1][2] + 1], Tail(path)) ELSE <<>>

(* --------------------------- what is wrong with a row ------------------- *)
(* The matching of brackets outside strings: the set of pairs <<a, b>> *)
RECURSIVE Pairs(_, _, _, _)
Pairs(L, row, i, open) ==   \* open: the brackets still open, innermost first
    IF i >= Len(row) THEN {}
    ELSE IF (L.round \/ L.calls) /\ Is(row, i, "(") THEN Pairs(L, row, i + 1, <<i>> \o open)
    ELSE IF (L.round \/ L.calls) /\ Is(row, i, ")") THEN (IF open = <<>> THEN Pairs(L, row, i + 1, open) ELSE {<<open[1], i>>} \cup Pairs(L, row, i + 1, Tail(open)))
    ELSE LET a == Atom(L, row, i) IN
         Pairs(L, row, IF a = <<>> \/ FirstOp(L.pre, row, i) # <<>> THEN i + 1 ELSE a[2], open)

(* One pass: state "operand" or "operator" expected, from = where the gap
   began that a missing operand would lie in, known = may the spaces here be
   taken by the token in front. Facts: unknown places, gaps <<a, b>>. *)
NoFacts == [unknown |-> {}, gaps |-> {}]
Unknown(f, S) == [f EXCEPT !.unknown = @ \cup S]
Gap(f, a, b) == [f EXCEPT !.gaps = @ \cup {<<a, b>>}]
RECURSIVE Pass(_, _, _, _, _, _, _, _)
Pass(L, row, pairs, i, want, from, known, f) ==
    LET j == SkipSp(row, i)
        opens == {q \in pairs : q[1] = j}
        closes == {q \in pairs : q[2] = j}
        pre == FirstOp(L.pre, row, j)
        inf == FirstOp(L.inf, row, j)
        post == IF IsKind(row, j, {"sup", "sub"}) THEN 1 ELSE IF FirstOp(L.post, row, j) # <<>> THEN Len(FirstOp(L.post, row, j)[1].t) ELSE 0
        atom == Atom(L, row, j)
        spaces == i..(j - 1)
        behind(len) == SkipScripts(row, SkipSp(row, j + len))
        needOperand(g) == IF want = "operand" THEN Gap(g, from, j) ELSE g
        needOperator(g) == IF want = "operator" THEN Gap(g, from, j) ELSE g
        lost == IF known THEN f ELSE Unknown(f, spaces)
    IN IF j >= Len(row)
       THEN (* spaces at the end belong to a token in front of them or are unknown, as an operand, to the parser *)
            IF known \/ spaces = {} THEN (IF want = "operand" THEN Gap(f, from, j) ELSE f) ELSE lost
       ELSE IF closes # {}
       THEN LET g == IF known \/ spaces = {} THEN (IF want = "operand" THEN Gap(f, from, j) ELSE f) ELSE lost
            IN Pass(L, row, pairs, j + 1, "operator", j + 1, TRUE, g)
       ELSE IF opens # {}
       THEN LET g == IF (want = "operand" /\ ~L.round) \/ (want = "operator" /\ ~L.calls) THEN Gap(f, from, j) ELSE f IN
            IF Is(row, j + 1, ")") THEN Pass(L, row, pairs, j + 2, "operator", j + 2, TRUE, g)
            ELSE Pass(L, row, pairs, j + 1, "operand", j + 1, FALSE, g)
       ELSE IF want = "operator" /\ inf # <<>>
       THEN Pass(L, row, pairs, behind(Len(inf[1].t)), "operand", j + Len(inf[1].t), TRUE, f)
       ELSE IF want = "operator" /\ post > 0
       THEN Pass(L, row, pairs, j + post, "operator", j + post, TRUE, f)
       ELSE IF pre # <<>>
       THEN Pass(L, row, pairs, behind(Len(pre[1].t)), "operand", j + Len(pre[1].t), TRUE, needOperator(f))
       ELSE IF inf # <<>>
       THEN Pass(L, row, pairs, behind(Len(inf[1].t)), "operand", j + Len(inf[1].t), TRUE, needOperand(f))
       ELSE IF post > 0
       THEN Pass(L, row, pairs, j + post, "operator", j + post, TRUE, needOperand(f))
       ELSE IF atom # <<>>
       THEN Pass(L, row, pairs, atom[2], "operator", atom[2], TRUE, needOperator(f))
       ELSE Pass(L, row, pairs, j + 1, "operator", j + 1, FALSE, Unknown(lost, {j}))
Scan(L, row) ==
    LET pairs == Pairs(L, row, 0, <<>>) IN [pairs |-> pairs, facts |-> Pass(L, row, pairs, 0, "operand", 0, FALSE, NoFacts)]
Faultless(L, row) == LET s == Scan(L, row) IN s.facts = NoFacts

IsError(t) == t.name \in {"Error::UnknownToken", "Error::MissingToken", "Error::MissingOperator"}
RECURSIVE Within(_)         \* all nodes of a tree that belong to the same row
Within(t) == {t} \cup (IF t.kind = "kids" THEN UNION {Within(t.kids[i]) : i \in DOMAIN t.kids} ELSE {})

Pair(t, a, b) ==            \* t is the node of the brackets at a and b
    LET n == Len(t.kids) IN
    /\ t.kind = "kids" /\ t.a = a /\ t.b = b + 1 /\ n \in {2, 3}
    /\ t.kids[1].kind = "leaf" /\ t.kids[1].a = a /\ t.kids[1].b = a + 1
    /\ t.kids[n].kind = "leaf" /\ t.kids[n].a = b /\ t.kids[n].b = b + 1
    /\ IF n = 3 THEN t.kids[2].a = a + 1 /\ t.kids[2].b = b ELSE b = a + 1
RECURSIVE Local(_, _, _)
Local(L, row, t) ==
    LET s == Scan(L, row)
        ns == Within(t)
        f == s.facts
        unknown == {x \in ns : x.name = "Error::UnknownToken"}
        missing == {x \in ns : x.name = "Error::MissingToken"}
    IN (* brackets that match group exactly what is between them *)
       /\ \A q \in s.pairs : Cardinality({x \in ns : Pair(x, q[1], q[2])}) = 1
       (* what is not understood is an error at its place, and nothing else is *)
       /\ {<<x.a, x.b>> : x \in unknown} = {<<i, i + 1>> : i \in f.unknown}
       /\ \A x \in unknown : x.kind = "leaf"
       (* what is missing is an error at its place, and nothing else is *)
       /\ \A g \in f.gaps : \E x \in missing : g[1] <= x.a /\ x.b <= g[2]
       /\ \A x \in missing : \/ \E g \in f.gaps : g[1] <= x.a /\ x.b <= g[2]
                             \/ \E i \in f.unknown : x.a \in {i, i + 1}
       /\ (\E x \in ns : IsError(x)) <=> f # NoFacts
       (* and so in the nested rows *)
       /\ \A x \in {y \in ns : y.kind = "rows"} :
            \A j \in DOMAIN x.kids : Local(L, row[x.a + 1].c[j], x.kids[j])
=============================================================================
