-------------------------------- MODULE Site --------------------------------
(***************************************************************************)
(* A page with formulas on it: every one that is marked becomes an editor   *)
(* when the page is loaded, and every editor lives on its own.              *)
(*                                                                         *)
(* A piece of a page is [t |-> tag, s |-> text, c |-> pieces, on |-> is it  *)
(* marked].                                                                 *)
(***************************************************************************)
EXTENDS Component

Editor == [t |-> "math-editor", s |-> <<>>, c |-> <<>>, on |-> FALSE]
Becomes(e) == e.t = "math" /\ e.on
RECURSIVE Loaded(_)
(* what a page is after it was loaded *)
Loaded(page) ==
    [i \in DOMAIN page |->
        IF Becomes(page[i]) THEN Editor
        ELSE IF page[i].t = "math" THEN page[i]
        ELSE [page[i] EXCEPT !.c = Loaded(@)]]
RECURSIVE Formulas(_)
(* the formulas that become editors, in order *)
Formulas(page) ==
    Concat([i \in DOMAIN page |->
        IF Becomes(page[i]) THEN <<page[i]>>
        ELSE IF page[i].t = "math" THEN <<>> ELSE Formulas(page[i].c)])

(* the editors: the state of each on the page *)
Open(page) == [k \in DOMAIN Formulas(page) |-> Fresh]
Starting(page) == [k \in DOMAIN Formulas(page) |->
                     [ev |-> [e |-> "attr", key |-> ""], cmds |-> <<[Cmd("replace") EXCEPT !.row = Meaning(Formulas(page)[k])]>>]]
Happens(eds, k, e) == [eds EXCEPT ![k] = After(@, e)]
=============================================================================
