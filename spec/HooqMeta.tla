------------------------------- MODULE HooqMeta -------------------------------
(***************************************************************************)
(* Metadata as it reaches a hook when the program runs.                     *)
(*                                                                          *)
(* A record is one annotated function: the events of one run of it (nodes   *)
(* with attributes opened and closed, hooks called) with what each hook was *)
(* given.  Settings are those of HooqSettings; a binding's text names its   *)
(* own type and value, and it may be retrieved as that type only.           *)
(***************************************************************************)
EXTENDS HooqWalk, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES r, i, st, bad
vars == <<r, i, st, bad>>

RECURSIVE FlavorsOf(_)
FlavorsOf(fs) ==
  IF fs = <<>> THEN EmptyFun
  ELSE (fs[1].n :> [meth |-> 0, targets |-> {}, tails |-> <<>>, ignore |-> <<>>, results |-> <<>>, macros |-> TRUE,
                    bind |-> FunOfPairs(fs[1].b), sub |-> EmptyFun]) @@ FlavorsOf(Tail(fs))

Fls == FlavorsOf(Recs[r].flavors)

\* the text of a binding, as hooks are shown it; its type; its value when x is the local variable's
RECURSIVE Lookup(_, _)
Lookup(ts, t) == IF ts[1].t = t THEN ts[1] ELSE Lookup(Tail(ts), t)
ValueOf(e, x) == IF e.x THEN ToString(x + e.k) ELSE e.v

\* what is wrong with what a hook was given in context c
Wrong(c, q) ==
  LET o == q.o
      given == { o.b[j].n : j \in DOMAIN o.b }
      wrongs == { j \in DOMAIN o.b :
                    \/ o.b[j].n \notin DOMAIN c.bind
                    \/ LET e == Lookup(Recs[r].texts, c.bind[o.b[j].n])
                       IN \/ o.b[j].e # e.t
                          \/ o.b[j].as # << [t |-> e.ty, v |-> ValueOf(e, o.x)] >> }
  IN CASE o.line # q.line -> "line"
       [] given # DOMAIN c.bind -> "bindings that are in force"
       [] Len(o.b) # Cardinality(given) -> "binding more than once"
       [] wrongs # {} -> "binding " \o o.b[CHOOSE j \in wrongs : TRUE].n
       [] o.absent # 0 -> "binding that does not exist"
       [] o.meta # o.vars -> "metadata and variables"
       [] ~o.named -> "value of a named binding"
       [] o.count # CountText(q.n, "q") -> "count"
       [] q.source # "" /\ o.source # q.source -> "source"
       [] OTHER -> ""

Init == /\ r \in DOMAIN Recs /\ i = 1 /\ bad = ""
        /\ st = << Context(FlavorAt(FlavorsOf(Recs[r].flavors), <<Recs[r].root>>)) >>

Next ==
  /\ bad = "" /\ i <= Len(Recs[r].ev)
  /\ r' = r
  /\ LET e == Recs[r].ev[i]
         c == st[Len(st)]
     IN CASE e.e = "o" -> st' = Append(st, Enter(c, e.at, Fls)) /\ i' = i + 1 /\ bad' = bad
          [] e.e = "c" -> st' = SubSeq(st, 1, Len(st) - 1) /\ i' = i + 1 /\ bad' = bad
          [] e.e = "q" ->
               LET w == Wrong(c, e)
               IN /\ st' = st
                  /\ i' = i + 1
                  /\ bad' = w
                  /\ IF w = "" THEN TRUE
                     ELSE PrintT("VIOL " \o ToJson([rec |-> r, ev |-> i, what |-> w, bind |-> ToString(c.bind)]))

Spec == Init /\ [][Next]_vars
=============================================================================
