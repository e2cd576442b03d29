------------------------------ MODULE HooqRunMC ------------------------------
(* Every outcome of every operation (the first ones; then all go well) of    *)
(* small programs under every kind of hook.                                  *)
EXTENDS HooqRun, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
Tape == CHOOSE n \in 0 .. 20 : ToString(n) = IOEnv.TAPE
Modes == {"plain", "h", "so", "default", "anyhow"}

VARIABLES p, mode, s, tape, log, evals
\* evals: the places of hooked targets whose operands have become values, in order (ghost)
vars == <<p, mode, s, tape, log, evals>>

Slim(S) == [S EXCEPT !.prog = 0]
Full(S) == [S EXCEPT !.prog = Progs[p]]
NodeOf(S) == Progs[p].n[Top(S).n]

Init == /\ p \in DOMAIN Progs /\ mode \in Modes
        /\ s = Slim(Start(Progs[p], mode, "ERROR"))
        /\ tape = <<>> /\ log = <<>> /\ evals = <<>>

Settled == {"cnd", "op", "ope", "opo"}
Asks(S) ==
  \/ S.ctl.m = "e" /\ Progs[p].n[S.ctl.n].k \in Settled /\ Progs[p].n[S.ctl.n].c = <<>>
  \/ S.ctl.m = "v" /\ S.k # <<>> /\ Top(S).f = "args" /\ NodeOf(S).k \in Settled /\ Top(S).i = Len(NodeOf(S).c)

AtTarget(S) == S.ctl.m = "v" /\ S.k # <<>> /\ Top(S).f = "tgt"

Next ==
  /\ s.ctl.m # "end"
  /\ UNCHANGED <<p, mode>>
  /\ \E b \in (IF Asks(s) /\ Len(tape) < Tape THEN BOOLEAN ELSE {FALSE}) :
       LET S == Step(Full(s), b)
       IN /\ s' = Slim(S)
          /\ tape' = IF Asks(s) THEN Append(tape, b) ELSE tape
          /\ log' = log \o S.out
  /\ evals' = IF AtTarget(s) /\ Hooked(Progs[p], mode, NodeOf(s)) THEN Append(evals, NodeOf(s).h) ELSE evals

Spec == Init /\ [][Next]_vars

IsLook(e) == SubSeq(e, 1, 4) \in {"hook", "more", "[mai"}
Rest(l) == SelectSeq(l, LAMBDA e : ~IsLook(e))

RECURSIVE Finish(_, _, _)
Finish(S, tp, l) ==
  IF S.ctl.m = "end" THEN l
  ELSE LET asks == Asks(S)
           T == Step(S, asks /\ tp # <<>> /\ tp[1])
       IN Finish(T, IF asks /\ tp # <<>> THEN Tail(tp) ELSE tp, l \o T.out)

\* The plain program with the same outcomes does the same things in the same order with the same result.
SameAsPlain ==
  s.ctl.m = "end" /\ ~Chained(mode) => Rest(log) = Finish(Start(Progs[p], "plain", ""), tape, <<>>)

\* The hook's method is called exactly when the operand has become a value: as often, and in that order.
OncePerEvaluation ==
  mode = "h" => LET hs == SelectSeq(log, IsLook)
                IN /\ Len(hs) = Len(evals)
                   /\ \A i \in DOMAIN hs : SubSeq(hs[i], 1, 6 + Len(evals[i])) = "hook " \o evals[i] \o " "

\* When it is called nothing inside the target is still to be done.
InnerFirst == AtTarget(s) => s.cur # <<>> /\ s.cur[Len(s.cur)] = Top(s).n

\* An error leaves with the places of the targets it went through, the last one first.
NothingLeft == s.ctl.m = "end" => s.k = <<>> /\ s.cur = <<>>
=============================================================================
