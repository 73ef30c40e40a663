---------------------------- MODULE FrontendTrace ---------------------------
(***************************************************************************)
(* Checks what the frontend showed, against the specification of the page.  *)
(***************************************************************************)
EXTENDS Frontend, Site, Bindings, Address, TLC, Json, IOUtils
CONSTANTS Property, Chunks
M == INSTANCE Modules

Log == TLCEval(ndJsonDeserialize(IOEnv.EVENTS))
N == Len(Log)
VARIABLE l
Chunk(k) == 1 + ((k - 1) * N) \div Chunks
Init == l \in {Chunk(k) : k \in 1..Chunks} /\ l <= N
Next == l < N /\ (l + 1) \notin {Chunk(k) : k \in 1..Chunks} /\ l' = l + 1
Spec == Init /\ [][Next]_l

(* the page, with every editor on it *)
SiteOk(ev) ==
    /\ ev.shown.ok
    /\ LET v == ev.shown.v[1]
           fs == Formulas(ev.page)
       IN /\ v.page = Loaded(ev.page)
          /\ Len(v.editors) = Len(fs) /\ Len(ev.twins) = Len(fs)
          /\ \A k \in DOMAIN fs :
              /\ KeepsUp(ev.twins[k], [ok |-> TRUE, v |-> <<v.editors[k]>>])
              /\ ev.ev = <<>> => v.editors[k].mine.row = Meaning(fs[k])
(* a page chooses what its editor understands: these modules, in this order *)
ComposedOk(ev) ==
    LET L == TLCEval(M!LanguageOf(ev.mods))
        rules == TLCEval(M!OffersOf(ev.mods))
        v == ev.shown.v[1]
    IN /\ ev.shown.ok
       /\ M!Covers(ev.row, v.tree) /\ M!Shaped(M!Whole(M!Lax(L), ev.row), v.tree) /\ M!Local(L, ev.row, v.tree)
       /\ {v.offers[i] : i \in DOMAIN v.offers} =
            {[text |-> rules[x.rule].text, result |-> rules[x.rule].result, k |-> x.k, whole |-> M!A!Complete(rules, x)]
               : x \in M!A!Offered(rules, ev.row, Len(ev.row), 2)}
Accepts(ev) ==
    CASE ev.op = "render" -> ev.shown.ok /\ Shows(ev.shown.v[1], ev.row) /\ Admits(ev.shown.v[1], ev.shown.v[1].faults)
      [] ev.op = "import" -> ReadOk(ev)
      [] ev.op = "composed" -> ComposedOk(ev)
      [] ev.op = "bound"  -> Bound(ev.editor, ev.page, ev.popped, ev.before)
      [] ev.op = "refused" -> Refused(ev)
      [] ev.op = "start" -> FALSE
      [] ev.op = "site" -> SiteOk(ev)
      [] "twin" \in DOMAIN ev -> KeepsUp(ev.twin, ev.shown)
      [] ev.op = "address" -> ev.shown.ok /\ Addressed(ev.row, ev.shown.v[1])
      [] ev.op = "place"  -> ev.shown.ok /\ Placed(ev.row, ev.shown.v[1])
Accepted == l <= N => Accepts(Log[l])
=============================================================================
