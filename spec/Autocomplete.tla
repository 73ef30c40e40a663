---------------------------- MODULE Autocomplete ----------------------------
(***************************************************************************)
(* Which autocomplete rules are offered at a place.  A rule is             *)
(* [text |-> string, result |-> nodes].                                    *)
(***************************************************************************)
EXTENDS InputTree

(* the text of the k symbols in front of offset o *)
RECURSIVE TextOf(_)
TextOf(nodes) == IF nodes = <<>> THEN "" ELSE nodes[1].v \o TextOf(Tail(nodes))
LastText(row, o, k) == TextOf(Slice(row, o - k, o))
AllSymbols(row, o, k) == \A i \in (o - k + 1)..o : IsSym(row[i])
StartsWith(text, prefix) == Len(prefix) <= Len(text) /\ SubSeq(text, 1, Len(prefix)) = prefix

(* how many symbols in front of o match a prefix of the rule's text *)
Lengths(rule, row, o, minimum) ==
    {k \in Max2(minimum, 1)..o :
        AllSymbols(row, o, k) /\ LastText(row, o, k) # "" /\ StartsWith(rule.text, LastText(row, o, k))}

(* everything that is offered, as a set of [rule (its number), k, text] *)
Offered(rules, row, o, minimum) ==
    UNION {{[rule |-> r, k |-> k, text |-> LastText(row, o, k)] : k \in Lengths(rules[r], row, o, minimum)} : r \in DOMAIN rules}

Complete(rules, m) == m.text = rules[m.rule].text
=============================================================================
