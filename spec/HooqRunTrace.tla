----------------------------- MODULE HooqRunTrace -----------------------------
(* Recorded runs against HooqRun: every line of the log must be what the     *)
(* machine shows next; the outcomes of operations are taken from the log.    *)
EXTENDS HooqRun, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLES r, s, pos
vars == <<r, s, pos>>

Slim(S) == [S EXCEPT !.prog = 0]
Full(S) == [S EXCEPT !.prog = Progs[Runs[r].p]]

Init == /\ r \in DOMAIN Runs
        /\ s = Slim(Start(Progs[Runs[r].p], Runs[r].mode, Runs[r].lv))
        /\ pos = 1

Agrees(S) == /\ pos + Len(S.out) - 1 <= Len(Runs[r].ev)
             /\ S.out = SubSeq(Runs[r].ev, pos, pos + Len(S.out) - 1)

Bad(what) == [s EXCEPT !.ctl = [Halt EXCEPT !.x = "bad", !.l = what]]

RECURSIVE Quote(_)
Quote(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o (IF Len(ss) > 1 THEN " | " ELSE "") \o Quote(Tail(ss))

Report(what, got) ==
  PrintT("VIOL " \o ToJson([run |-> r, pos |-> pos, want |-> what, got |-> got]))

Next ==
  /\ s.ctl.m # "end"
  /\ r' = r
  /\ LET S0 == Step(Full(s), FALSE)
         S1 == Step(Full(s), TRUE)
         got == IF pos <= Len(Runs[r].ev) THEN Runs[r].ev[pos] ELSE "nothing"
     IN IF Agrees(S0) THEN s' = Slim(S0) /\ pos' = pos + Len(S0.out)
        ELSE IF Agrees(S1) THEN s' = Slim(S1) /\ pos' = pos + Len(S1.out)
        ELSE /\ Report(IF S0.out = S1.out THEN S0.out ELSE <<S0.out[1], "or", S1.out[1]>>, got)
             /\ s' = Bad("") /\ pos' = pos

\* at the end nothing is left of the log
Complete ==
  s.ctl.m = "end" /\ s.ctl.x = "" /\ pos <= Len(Runs[r].ev) => Report(<<"the end">>, Runs[r].ev[pos])

Spec == Init /\ [][Next]_vars
=============================================================================
