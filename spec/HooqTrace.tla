----------------------------- MODULE HooqTrace -----------------------------
(***************************************************************************)
(* Traces of real expansions against HooqWalk: every trace is replayed     *)
(* event by event, and what was observed at the close of each slot must be *)
(* what the machine demands there. A difference is charged to the          *)
(* properties it breaks.                                                   *)
(***************************************************************************)
EXTENDS HooqWalk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Wanted == IOEnv.PROPERTY

VARIABLES tid, pos, S, viol

vars == <<tid, pos, S, viol>>

T == Traces[tid]

HasFeat(w) == w \in Range(T.feat)

\* settings come from a flavor that is named or redefined
OfFlavor == HasFeat("toml") \/ HasFeat("flavor") \/ T.root # <<>>

\* properties that speak about presence, given what the trace is about
Presence ==
  (IF HasFeat("skip") \/ HasFeat("skip_all") THEN {"P04"} ELSE {})
  \cup (IF HasFeat("attr") THEN {"P05"} ELSE {})
  \cup (IF HasFeat("targets") THEN {"P06"} ELSE {})
  \cup (IF HasFeat("macro") THEN {"P07"} ELSE {})
  \cup (IF OfFlavor THEN {"P15"} ELSE {})

Numbering ==
  {"P09"} \cup (IF HasFeat("skip") \/ HasFeat("skip_all") THEN {"P04"} ELSE {})
          \cup (IF HasFeat("targets") THEN {"P06"} ELSE {})

PropsOfField(l) ==
  CASE l \in {"line", "col", "column", "path", "file"} -> {"P08"}
    [] l \in {"count", "nth"} -> Numbering
    [] l \in {"fn_name", "fnname", "fn_sig", "fnsig"} -> {"P10"}
    [] l \in {"source", "expr"} -> {"P11"}
    [] OTHER -> {"P05", "P12"} \cup (IF OfFlavor THEN {"P15"} ELSE {})

\* a failure is [p |-> property, at |-> event, what |-> ..]
Charge(ps, what) == { [p |-> p, at |-> pos, what |-> what] : p \in ps }

FieldDiffs(e, o, obs) ==
  LET want(l) == IF e.f[l] = "*" THEN obs[e.from].e ELSE e.f[l]
      labels == DOMAIN e.f
  IN (IF labels # DOMAIN o.f THEN Charge({"P12", "P13"}, <<"fields", labels, DOMAIN o.f>>) ELSE {})
     \cup UNION { IF o.f[l] # want(l)
                  THEN Charge(PropsOfField(l), <<l, "expected", want(l), "found", o.f[l]>>) ELSE {}
                  : l \in labels \cap DOMAIN o.f }

TowerDiffs(exp, obs) ==
  IF Shape(exp) = Shape(obs)
  THEN UNION { IF exp[i].y = "?" THEN {} ELSE FieldDiffs(exp[i], obs[i], obs) : i \in DOMAIN exp }
  ELSE
  LET q == OfKind(exp, {"q"}) # OfKind(obs, {"q"})
      v == OfKind(exp, {"ret", "tail"}) # OfKind(obs, {"ret", "tail"})
      len == Len(OfKind(exp, {"q", "ret", "tail"})) # Len(OfKind(obs, {"q", "ret", "tail"}))
      lost == OfKind(obs, {"none"}) # <<>>
      what == <<"expected", Shape(exp), "found", Shape(obs)>>
      ps == (IF q THEN {"P02"} ELSE {}) \cup (IF v THEN {"P03"} ELSE {})
            \cup (IF lost THEN {"P09"} ELSE {})
            \cup (IF ~len \/ HasFeat("so") THEN {"P13"} ELSE {})
            \cup (IF ~len \/ HasFeat("exc") THEN {"P14"} ELSE {})
            \cup Presence
            \cup (IF exp = <<>> THEN {"P01"} ELSE {})
  IN Charge(ps, what)

-----------------------------------------------------------------------------
Everything == {"P01", "P02", "P03", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P18"} \cup Presence

\* what must stand before the item: the traits of the root attribute, then those of its flavor
RootPath == IF T.root = <<>> THEN <<"default">> ELSE T.root

Imports ==
  LET traits == T.uses \o FlavorAt(S.flavors, RootPath).traits
  IN [i \in DOMAIN traits |-> "use " \o traits[i] \o " as _ ;"]

\* what stands where the item was
Place == "const _ : ( ) = ( ) ;"

\* behind the imports the attribute asks for stand those of the flavor
FlavorImportsAsMust ==
  LET n == Len(T.uses) IN
  /\ Len(T.pre[1]) >= n + 1
  /\ SubSeq(T.pre[1], n + 1, Len(T.pre[1]) - 1) = SubSeq(Imports, n + 1, Len(Imports))

\* the expansion failed, with an error at the item
Rejected == T.out = "none"

Broken == T.out \notin {"ok", "none"} \/ (~Rejected /\ ~T.al)

Init ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 1
  /\ S = [Initial(Flavors(Range(T.features), T.toml), RootPath, T.file, BadToml(T.toml))
          EXCEPT !.bang = "consume" \in Range(T.features)]
  /\ viol = IF T.out \notin {"ok", "none"} THEN Charge(Everything, <<"outcome", T.out>>)
            ELSE IF Rejected THEN {}
            ELSE IF ~T.al THEN Charge({"P01", "P02", "P03", "P14"} \cup Presence, <<"different structure">>)
            ELSE IF ~T.erase THEN Charge({"P01"} \cup (IF HasFeat("macro") THEN {"P07"} ELSE {})
                                         \cup (IF HasFeat("exc") THEN {"P14"} ELSE {}),
                                         <<"the code without hooks is not the annotated code">>)
            ELSE {}

Read ==
  /\ ~Broken
  /\ pos <= Len(T.ev)
  /\ pos' = pos + 1
  /\ S' = Step(S, T.ev[pos])
  /\ viol' =
       LET ev == T.ev[pos]
           fin == FinishSlot(S)
       IN IF Rejected THEN viol
          ELSE IF ev.e = "c" /\ ev.k = "slot"
          THEN viol \cup TowerDiffs(Expected(Top(fin.st).tower), ev.obs)
          ELSE IF ev.e = "c" /\ ev.k = "macro" /\ (Top(S.st).off \/ ~Top(S.st).ev.parsed) /\ ev.toks # ev.btoks
          THEN viol \cup Charge({"P01", "P07"}, <<"macro arguments changed", ev.toks, ev.btoks>>)
          ELSE viol
  /\ tid' = tid

\* an error must be reported exactly when there is reason to
Verdict ==
  IF Rejected /\ ~S.bad THEN Charge(Everything, <<"rejected without reason">>)
  ELSE IF ~Rejected /\ S.bad
  THEN Charge({"P18"} \cup (IF OfFlavor THEN {"P15"} ELSE {})
                      \cup (IF HasFeat("so") THEN {"P13"} ELSE {}), <<"misuse accepted">>)
  ELSE {}

Finish ==
  /\ ~Broken
  /\ pos = Len(T.ev) + 1
  /\ pos' = pos + 1
  /\ viol' = viol
       \cup Verdict
       \cup (IF ~Rejected /\ T.left # S.offattrs
             THEN Charge({"P01"}, <<"attributes left in the expansion", T.left>>) ELSE {})
       \cup (IF ~Rejected /\ ~S.bad /\ T.pre # <<>> /\ T.pre[1] # Append(Imports, Place)
             THEN Charge({"P01", "P17"} \cup (IF FlavorImportsAsMust THEN {} ELSE {"P15"}), <<"items beside it", T.pre[1], "expected", Append(Imports, Place)>>) ELSE {})
  /\ UNCHANGED <<tid, S>>

Next == Read \/ Finish

Spec == Init /\ [][Next]_vars

\* every frame opened is closed, and the counters go with the functions
WellNested == (~Broken /\ pos = Len(T.ev) + 2) => Len(S.st) = 1 /\ Len(S.cnts) = 1

Done == Broken \/ pos = Len(T.ev) + 2

Failures == { x \in viol : x.p = Wanted \/ Wanted = "all" }

\* reported once, at the end of the trace
Report ==
  Done => \A x \in Failures :
            PrintT("VIOL " \o ToJson(x @@ [id |-> T.id]))

NoViolation == Done => (Report /\ (Failures = {} \/ IOEnv.KEEP_GOING = "1"))
=============================================================================
