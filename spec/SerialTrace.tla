---------------------------- MODULE SerialTrace -----------------------------
(***************************************************************************)
(* Checks texts written and read by the implementation.                    *)
(***************************************************************************)
EXTENDS Serial, TLC, Json, IOUtils
CONSTANTS Property, Chunks

Log == TLCEval(ndJsonDeserialize(IOEnv.EVENTS))
N == Len(Log)
VARIABLE l
Chunk(k) == 1 + ((k - 1) * N) \div Chunks
Init == l \in {Chunk(k) : k \in 1..Chunks} /\ l <= N
Next == l < N /\ (l + 1) \notin {Chunk(k) : k \in 1..Chunks} /\ l' = l + 1
Spec == Init /\ [][Next]_l

Accepts(ev) ==
    LET want == IF ev.lexed THEN Read(ev.tokens) ELSE No
        got == ev.back.v[1]
    IN /\ ev.back.ok
       /\ want.r = "ok" => got.accepted /\ got.nodes = want.v
       /\ want.r = "bad" => ~got.accepted
       /\ ev.op = "write" => /\ ev.out.ok /\ ev.out.v[1].wrote
                             /\ want = Ok(ev.nodes)
Accepted == l <= N => Accepts(Log[l])
=============================================================================
