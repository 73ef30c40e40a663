----------------------------- MODULE SyntaxText ----------------------------
(***************************************************************************)
(* The text form of syntax trees.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
(* a tree is printed with the names, the dimensions of grids, and the
   symbols in quotes, in which quotes and backslashes are escaped *)
Escaped(v) == CASE v = "\"" -> "\\\"" [] v = "\\" -> "\\\\" [] OTHER -> v
RECURSIVE Glued(_, _)
Glued(parts, between) ==
    IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1]
    ELSE parts[1] \o between \o Glued(Tail(parts), between)
(* a value is printed as two hexadecimal digits per byte; a name that the map
   of names does not have (here: "") is printed as unknown *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Bytes(v) == Glued([i \in DOMAIN v |-> Hex[(v[i] \div 16) + 1] \o Hex[(v[i] % 16) + 1]], "")
ValueOf(t) == IF "value" \in DOMAIN t THEN t.value ELSE <<>>
NameOf(t) == IF t.name = "" THEN "<unknown>" ELSE t.name
RECURSIVE Printed(_)
Printed(t) ==
    LET kids == [i \in DOMAIN t.kids |-> Printed(t.kids[i])]
        inside ==
            CASE t.kind = "leaf" -> <<"\"" \o Glued([i \in DOMAIN t.syms |-> Escaped(t.syms[i])], "") \o "\"">>
              [] t.kind = "rows" /\ kids # <<>> -> <<ToString(t.w) \o "x" \o ToString(Len(kids) \div t.w)>> \o kids
              [] OTHER -> kids
        value == IF ValueOf(t) = <<>> THEN <<>> ELSE <<Bytes(ValueOf(t))>>
    IN "(" \o Glued(<<NameOf(t)>> \o inside \o value, " ") \o ")"

=============================================================================
