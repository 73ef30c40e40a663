------------------------------ MODULE Component -----------------------------
(***************************************************************************)
(* The editor on the page: which commands of the editor an event of the     *)
(* page stands for.  Typed text is handled a moment later than it arrives   *)
(* ("tick"), in the order in which it arrived.                              *)
(*                                                                         *)
(* A command is [c |-> name] with d (a direction), v (symbols), k (what is  *)
(* selected at once) or row (a document); those about a place on the page   *)
(* take the place of their event.                                           *)
(***************************************************************************)
EXTENDS Import

Fresh == [down |-> FALSE, timers |-> 0, waiting |-> <<>>, given |-> TRUE]   \* given: it has a formula of its own

Cmd(c) == [c |-> c, d |-> "", v |-> <<>>, k |-> "", row |-> <<>>]
ArrowOf == [ArrowLeft |-> "Left", ArrowRight |-> "Right", ArrowUp |-> "Up", ArrowDown |-> "Down"]
Removes == [deleteContentBackward |-> "Left", deleteWordBackward |-> "Left", deleteContentForward |-> "Right", deleteWordForward |-> "Right"]

(* what a key is for *)
OfKey(e) ==
    IF e.key \in DOMAIN ArrowOf THEN <<[Cmd("move") EXCEPT !.d = ArrowOf[e.key]]>>
    ELSE IF e.ctrl /\ e.key \in {"z", "Z"} THEN <<Cmd("undo")>>
    ELSE IF e.ctrl /\ e.key \in {"y", "Y"} THEN <<Cmd("redo")>>
    ELSE <<>>
(* what typing is for *)
OfInput(e) ==
    IF e.key \in DOMAIN Removes THEN <<[Cmd("remove") EXCEPT !.d = Removes[e.key]]>>
    ELSE IF e.key = "insertText" /\ e.text # <<>> THEN <<[Cmd("insert") EXCEPT !.v = e.text[1]]>>
    ELSE <<>>
(* what a pointer is for: only the primary one, and only while it is down *)
OfPointer(s, e) ==
    CASE e.e = "pointerdown" /\ e.primary -> <<[Cmd("start") EXCEPT !.k = "Char"]>>
      [] e.e = "pointermove" /\ e.primary /\ s.down -> <<Cmd("extend")>>
      [] e.e \in {"pointerup", "pointercancel"} /\ e.primary /\ s.down -> <<Cmd("extend"), Cmd("finish")>>
      [] e.e = "mousedown" /\ s.down /\ e.clicks = 2 -> <<[Cmd("start") EXCEPT !.k = "Word"]>>
      [] e.e = "mousedown" /\ s.down /\ e.clicks = 3 -> <<[Cmd("start") EXCEPT !.k = "Line"]>>
      [] OTHER -> <<>>

(* the commands an event stands for at once *)
Commands(s, e) ==
    CASE e.e = "keydown" -> OfKey(e)
      [] e.e = "tick"    -> s.waiting
      [] e.e = "copy"    -> <<Cmd("copy")>>
      [] e.e = "cut"     -> <<Cmd("copy"), [Cmd("remove") EXCEPT !.d = "Range"]>>
      [] e.e = "paste"   -> <<Cmd("paste")>>
      [] e.e = "attr"    -> IF e.dom # <<>> THEN <<[Cmd("replace") EXCEPT !.row = Meaning(e.dom[1])]>>
                            ELSE IF s.given THEN <<Cmd("replace")>>   \* its formula is taken away
                            ELSE <<>>
      [] e.e \in {"pointerdown", "pointermove", "pointerup", "pointercancel", "mousedown"} -> OfPointer(s, e)
      [] OTHER           -> <<>>
After(s, e) ==
    CASE e.e = "pointerdown" /\ e.primary -> [s EXCEPT !.down = TRUE]
      [] e.e \in {"pointerup", "pointercancel"} /\ e.primary -> [s EXCEPT !.down = FALSE]
      [] e.e = "beforeinput" -> [s EXCEPT !.waiting = @ \o OfInput(e), !.timers = @ + 1]
      [] e.e = "attr" -> [s EXCEPT !.given = e.dom # <<>>]
      [] e.e = "tick" -> [s EXCEPT !.waiting = <<>>, !.timers = @ - 1]
      [] OTHER -> s
=============================================================================
