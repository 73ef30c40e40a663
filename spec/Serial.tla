------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* The serialized form of nodes: which JSON text stands for which nodes,   *)
(* and which text must be rejected.                                        *)
(*                                                                         *)
(* Texts are sequences of tokens [t, v]: punctuation t = "p", strings "s", *)
(* numbers "n" (v: their text), literals "l" (null, true, false).          *)
(* JSON values are [t, v, e]: t in obj arr str num lit; e: the elements,   *)
(* each [k |-> key (objects), x |-> value].                                *)
(***************************************************************************)
EXTENDS InputTree

(* ------------------------------- JSON values --------------------------- *)
JStr(s) == [t |-> "str", v |-> s, e |-> <<>>]
JNum(s) == [t |-> "num", v |-> s, e |-> <<>>]
JLit(s) == [t |-> "lit", v |-> s, e |-> <<>>]
JArr(xs) == [t |-> "arr", v |-> "", e |-> [i \in DOMAIN xs |-> [k |-> "", x |-> xs[i]]]]
JObj(ms) == [t |-> "obj", v |-> "", e |-> [i \in DOMAIN ms |-> [k |-> ms[i][1], x |-> ms[i][2]]]]
Broken == [t |-> "broken", v |-> "", e |-> <<>>]

P(c) == [t |-> "p", v |-> c]
RECURSIVE Flatten(_)
Flatten(j) ==
    LET One(i) == (IF i > 1 THEN <<P(",")>> ELSE <<>>)
                  \o (IF j.t = "obj" THEN <<[t |-> "s", v |-> j.e[i].k], P(":")>> ELSE <<>>)
                  \o Flatten(j.e[i].x)
    IN CASE j.t = "str" -> <<[t |-> "s", v |-> j.v]>>
         [] j.t = "num" -> <<[t |-> "n", v |-> j.v]>>
         [] j.t = "lit" -> <<[t |-> "l", v |-> j.v]>>
         [] j.t = "arr" -> <<P("[")>> \o Concat([i \in DOMAIN j.e |-> One(i)]) \o <<P("]")>>
         [] j.t = "obj" -> <<P("{")>> \o Concat([i \in DOMAIN j.e |-> One(i)]) \o <<P("}")>>

(* ------------------------- reading tokens as JSON ---------------------- *)
(* results: [at |-> next token, x |-> value]; Broken when it is not JSON    *)
Bad == [at |-> 0, x |-> Broken]
Is(ts, i, c) == i <= Len(ts) /\ ts[i].t = "p" /\ ts[i].v = c
RECURSIVE ReadValue(_, _), ReadItems(_, _, _, _)
ReadValue(ts, i) ==
    IF i > Len(ts) THEN Bad
    ELSE CASE ts[i].t = "s" -> [at |-> i + 1, x |-> JStr(ts[i].v)]
           [] ts[i].t = "n" -> [at |-> i + 1, x |-> JNum(ts[i].v)]
           [] ts[i].t = "l" -> [at |-> i + 1, x |-> JLit(ts[i].v)]
           [] Is(ts, i, "[") -> IF Is(ts, i + 1, "]") THEN [at |-> i + 2, x |-> JArr(<<>>)] ELSE ReadItems(ts, i + 1, "arr", <<>>)
           [] Is(ts, i, "{") -> IF Is(ts, i + 1, "}") THEN [at |-> i + 2, x |-> JObj(<<>>)] ELSE ReadItems(ts, i + 1, "obj", <<>>)
           [] OTHER -> Bad
(* items, the next one begins at i *)
ReadItems(ts, i, t, got) ==
    LET keyed == t = "obj"
        okKey == ~keyed \/ (i <= Len(ts) /\ ts[i].t = "s" /\ Is(ts, i + 1, ":"))
        v == ReadValue(ts, IF keyed THEN i + 2 ELSE i)
        now == Append(got, [k |-> IF keyed THEN ts[i].v ELSE "", x |-> v.x])
    IN IF ~okKey THEN Bad
       ELSE IF v = Bad THEN Bad
       ELSE IF Is(ts, v.at, ",") THEN ReadItems(ts, v.at + 1, t, now)
       ELSE IF Is(ts, v.at, IF keyed THEN "}" ELSE "]") THEN [at |-> v.at + 1, x |-> [t |-> t, v |-> "", e |-> now]]
       ELSE Bad
AsJson(ts) == LET r == ReadValue(ts, 1) IN IF r = Bad \/ r.at # Len(ts) + 1 THEN Broken ELSE r.x

(* --------------------------- writing nodes ----------------------------- *)
Numerals == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN Numerals[n + 1] ELSE NumText(n \div 10) \o Numerals[(n % 10) + 1]

KindName(k) ==
    CASE k = "frac" -> "Fraction" [] k = "root" -> "Root" [] k = "sup" -> "Sup" [] k = "sub" -> "Sub" [] k = "table" -> "Table"
RECURSIVE NodeJson(_)
RowJson(row) == JObj(<<<<"values", JArr([i \in DOMAIN row |-> NodeJson(row[i])])>>>>)
NodeJson(n) ==
    IF IsSym(n) THEN JObj(<<<<"Symbol", JStr(n.v)>>>>)
    ELSE JObj(<<<<"Container", JArr(<<JStr(KindName(n.k)),
                                      JObj(<<<<"values", JArr([i \in DOMAIN n.c |-> RowJson(n.c[i])])>>, <<"width", JNum(NumText(n.w))>>>>)>>)>>>>)
Envelope(nodes) == JObj(<<<<"version", JNum("1")>>, <<"data", JArr([i \in DOMAIN nodes |-> NodeJson(nodes[i])])>>>>)

(* --------------------------- reading nodes ----------------------------- *)
(* r: "ok" with the value, "bad" must be rejected, "open" left open         *)
Ok(v) == [r |-> "ok", v |-> v]
No == [r |-> "bad", v |-> <<>>]
Open == [r |-> "open", v |-> <<>>]
Worst(rs) == IF \E x \in rs : x.r = "bad" THEN "bad" ELSE IF \E x \in rs : x.r = "open" THEN "open" ELSE "ok"

Fields(j, k) == {i \in DOMAIN j.e : j.e[i].k = k}
Field(j, k) == j.e[CHOOSE i \in Fields(j, k) : TRUE].x
(* an object with exactly the fields ks; arrays in their place, repeated and
   unknown fields are left open                                            *)
Shaped(j, ks) ==
    IF j.t = "arr" THEN "open"
    ELSE IF j.t # "obj" THEN "bad"
    ELSE IF \E k \in ks : Fields(j, k) = {} THEN "bad"
    ELSE IF Len(j.e) # Cardinality(ks) THEN "open"
    ELSE "ok"

Known(j) == j.t = "str" /\ j.v \in {"Fraction", "Root", "Sup", "Sub", "Table"}
KindOf(name) ==
    CASE name = "Fraction" -> "frac" [] name = "Root" -> "root" [] name = "Sup" -> "sup" [] name = "Sub" -> "sub" [] name = "Table" -> "table"
Whole(j) == j.t = "num" /\ Len(j.v) \in 1..9 /\ \A i \in 1..Len(j.v) : \E d \in 1..10 : Numerals[d] = SubSeq(j.v, i, i)
RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + (CHOOSE d \in 1..10 : Numerals[d] = SubSeq(s, Len(s), Len(s))) - 1

RECURSIVE ReadNode(_)
ReadNodes(j) ==
    IF j.t # "arr" THEN No
    ELSE LET xs == [i \in DOMAIN j.e |-> ReadNode(j.e[i].x)]
         IN [r |-> Worst(RangeOf(xs)), v |-> [i \in DOMAIN xs |-> xs[i].v]]
ReadRow(j) ==
    LET s == Shaped(j, {"values"}) IN
    IF s = "open" /\ j.t = "obj" THEN (IF Cardinality(Fields(j, "values")) = 1 /\ ReadNodes(Field(j, "values")).r = "bad" THEN No ELSE Open)
    ELSE IF s # "ok" THEN [r |-> s, v |-> <<>>]
    ELSE ReadNodes(Field(j, "values"))
ReadGrid(kind, j) ==
    LET s == Shaped(j, {"values", "width"}) IN
    IF s # "ok" THEN [r |-> s, v |-> <<>>]
    ELSE LET cs == Field(j, "values")
             w == Field(j, "width")
             rows == [i \in DOMAIN cs.e |-> ReadRow(cs.e[i].x)]
             n == [k |-> kind, v |-> "", w |-> IF Whole(w) THEN Value(w.v) ELSE 0, c |-> [i \in DOMAIN rows |-> rows[i].v]]
         IN IF cs.t # "arr" \/ ~Whole(w) THEN No
            ELSE IF Worst(RangeOf(rows)) # "ok" THEN [r |-> Worst(RangeOf(rows)), v |-> <<>>]
            ELSE IF n.w = 0 \/ n.c = <<>> \/ Len(n.c) % n.w # 0 THEN No
            ELSE IF ~WellFormed(<<n>>) THEN No
            ELSE Ok(n)
ReadNode(j) ==
    IF j.t # "obj" \/ Len(j.e) # 1 THEN No
    ELSE LET m == j.e[1] IN
         CASE m.k = "Symbol" -> IF m.x.t = "str" THEN Ok(Sym(m.x.v)) ELSE No
           [] m.k = "Container" ->
                IF m.x.t # "arr" \/ Len(m.x.e) # 2 \/ ~Known(m.x.e[1].x) THEN No
                ELSE ReadGrid(KindOf(m.x.e[1].x.v), m.x.e[2].x)
           [] OTHER -> No

ReadEnvelope(j) ==
    LET s == Shaped(j, {"version", "data"}) IN
    IF s # "ok" THEN [r |-> s, v |-> <<>>]
    ELSE LET version == Field(j, "version")
             nodes == ReadNodes(Field(j, "data"))
         IN IF ~Whole(version) THEN No
            ELSE IF nodes.r # "ok" THEN nodes
            ELSE IF version.v # "1" THEN Open
            ELSE nodes
Read(ts) == ReadEnvelope(AsJson(ts))
=============================================================================
