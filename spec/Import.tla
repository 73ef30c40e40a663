------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Reading MathML: which document an element stands for, and what is wrong  *)
(* with it.                                                                 *)
(*                                                                         *)
(* An element is [t |-> tag, s |-> its text as symbols, without the white   *)
(* space around it, c |-> the elements in it].                              *)
(***************************************************************************)
EXTENDS InputTree

Groups == {"math", "mrow", "mtd", "mstyle"}
Words == {"mi", "mn", "mo"}
Quotes == {"mtext", "ms"}
(* how many elements there have to be in an element *)
Parts == [mfrac |-> 2, mroot |-> 2, msub |-> 2, msup |-> 2, munder |-> 2, mover |-> 2, msubsup |-> 3, munderover |-> 3]

IsTable(e) == \A i \in DOMAIN e.c : e.c[i].t = "mtr" /\ \A j \in DOMAIN e.c[i].c : e.c[i].c[j].t = "mtd"
(* an element without a meaning *)
Faulty(e) ==
    CASE e.t \in Groups \cup Words \cup Quotes \cup {"msqrt"} -> FALSE
      [] e.t = "semantics" -> e.c = <<>>
      [] e.t \in DOMAIN Parts -> Len(e.c) # Parts[e.t]
      [] e.t = "mtable" -> ~IsTable(e)
      [] OTHER -> TRUE
(* the elements whose meaning is part of the meaning of an element *)
Read(e) ==
    CASE Faulty(e) \/ e.t \in Words \cup Quotes -> <<>>
      [] e.t = "semantics" -> <<e.c[1]>>
      [] e.t = "mtable" -> Concat([i \in DOMAIN e.c |-> e.c[i].c])
      [] OTHER -> e.c

RECURSIVE Faults(_)
(* the outermost elements without a meaning *)
Faults(e) ==
    IF Faulty(e) THEN 1
    ELSE LET r == Read(e)
             RECURSIVE Sum(_)
             Sum(k) == IF k = 0 THEN 0 ELSE Faults(r[k]) + Sum(k - 1)
         IN Sum(Len(r))

Widest(e) == LET ws == {Len(e.c[i].c) : i \in DOMAIN e.c} IN IF ws = {} THEN 0 ELSE CHOOSE m \in ws : \A x \in ws : x <= m

RECURSIVE Meaning(_)
(* the row an element stands for *)
Meaning(e) ==
    LET M(i) == Meaning(e.c[i])
        Spelled == [i \in DOMAIN e.s |-> Sym(e.s[i])]
        All == Concat([i \in DOMAIN e.c |-> Meaning(e.c[i])])
    IN CASE Faulty(e)         -> <<Sym("Error")>>
         [] e.t \in Words     -> Spelled
         [] e.t \in Quotes    -> <<Sym("\"")>> \o Spelled \o <<Sym("\"")>>
         [] e.t = "semantics" -> M(1)
         [] e.t = "mfrac"     -> <<Box("frac", 1, <<M(1), M(2)>>)>>
         [] e.t = "msqrt"     -> <<Box("root", 2, <<<<Sym("2")>>, All>>)>>
         [] e.t = "mroot"     -> <<Box("root", 2, <<M(2), M(1)>>)>>
         [] e.t \in {"msub", "munder"} -> M(1) \o <<Box("sub", 1, <<M(2)>>)>>
         [] e.t \in {"msup", "mover"}  -> M(1) \o <<Box("sup", 1, <<M(2)>>)>>
         [] e.t \in {"msubsup", "munderover"} -> M(1) \o <<Box("sub", 1, <<M(2)>>), Box("sup", 1, <<M(3)>>)>>
         [] e.t = "mtable"    ->
                LET w == Widest(e)
                    Padded(r) == [j \in 1..w |-> IF j <= Len(r.c) THEN Meaning(r.c[j]) ELSE <<>>]
                IN <<Box("table", w, Concat([i \in DOMAIN e.c |-> Padded(e.c[i])]))>>
         [] OTHER             -> All

(* ------------- the MathML a document can be written as ------------------ *)
El(t, c) == [t |-> t, s |-> <<>>, c |-> c]
RECURSIVE Written(_)
Written(row) ==
    LET Of(r) == El("mrow", Written(r))
        One(n) ==
            CASE IsSym(n)       -> [t |-> "mi", s |-> <<n.v>>, c |-> <<>>]
              [] n.k = "frac"   -> El("mfrac", <<Of(n.c[1]), Of(n.c[2])>>)
              [] n.k = "root"   -> El("mroot", <<Of(n.c[2]), Of(n.c[1])>>)
              [] n.k = "sup"    -> El("msup", <<Of(<<>>), Of(n.c[1])>>)
              [] n.k = "sub"    -> El("msub", <<Of(<<>>), Of(n.c[1])>>)
              [] n.k = "table"  -> El("mtable", [i \in 1..(IF n.w = 0 THEN 0 ELSE Len(n.c) \div n.w) |->
                                            El("mtr", [j \in 1..n.w |-> El("mtd", Written(n.c[(i - 1) * n.w + j]))])])
    IN [i \in DOMAIN row |-> One(row[i])]

(* ---------------------------- what was read ----------------------------- *)
(* the document, as it was read and as the editor keeps it; whether anything
   was reported *)
ReadOk(ev) ==
    /\ ev.read.ok
    /\ ev.read.v[1].row = Meaning(ev.dom)
    /\ ev.read.v[1].kept = Meaning(ev.dom)
    /\ ev.read.v[1].faults = Faults(ev.dom)
=============================================================================
