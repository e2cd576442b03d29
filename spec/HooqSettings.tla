---------------------------- MODULE HooqSettings ----------------------------
(***************************************************************************)
(* The settings that govern hooking, how an attribute changes them, and    *)
(* how a flavor path resolves to settings.                                 *)
(*                                                                         *)
(* A method template is a record                                           *)
(*   [m |-> "i" (starts with a dot) or "r" (any other),                    *)
(*    exc |-> TRUE iff it ends in `!',                                     *)
(*    seq |-> sequence of elements: [so |-> TRUE] for the method so far,   *)
(*            [so |-> FALSE, tag |-> .., f |-> labels] for a call,         *)
(*    body |-> for "r": what the call wraps, "expr", "so", "expr.so", or   *)
(*            "id" when the template is just the operand]                  *)
(*                                                                         *)
(* A flavor is a record [meth, targets, tails, ignore, results, macros,    *)
(* bind, traits, sub]; sub maps names to flavors.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in DOMAIN s }

KindsOfWord(w) ==
  CASE w \in {"?", "question"} -> {"q"}
    [] w = "return" -> {"ret"}
    [] w \in {"tail_expr", "tail expr", "tailexpr", "tailExpr"} -> {"tail"}
    [] w = "all" -> {"q", "ret", "tail"}
    [] OTHER -> {}

KnownTargetWord(w) == KindsOfWord(w) # {}

TargetSet(words) == UNION { KindsOfWord(w) : w \in Range(words) }

\* f with the entries of g put over it
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

EmptyFun == [x \in {} |-> x]

\* pairs <<n, t>>, the later ones winning
RECURSIVE FunOfPairs(_)
FunOfPairs(ps) ==
  IF ps = <<>> THEN EmptyFun
  ELSE Over(FunOfPairs(SubSeq(ps, 1, Len(ps) - 1)), (ps[Len(ps)].n :> ps[Len(ps)].t))

-----------------------------------------------------------------------------
(* Built-in flavors. `pre' names a built-in method. *)

Builtin(name) == [m |-> "p", exc |-> FALSE, seq |-> <<>>, body |-> name]
Identity == [m |-> "r", exc |-> FALSE, seq |-> <<>>, body |-> "id"]

DefaultFlavor ==
  [meth |-> Builtin("inspect"), targets |-> {"q", "ret", "tail"},
   tails |-> <<"Err">>, ignore |-> <<"Ok">>, results |-> <<"Result">>,
   macros |-> TRUE, bind |-> EmptyFun, traits |-> <<>>, sub |-> EmptyFun]

EmptyFlavor ==
  [meth |-> Identity, targets |-> {}, tails |-> <<>>, ignore |-> <<>>,
   results |-> <<>>, macros |-> FALSE, bind |-> EmptyFun, traits |-> <<>>, sub |-> EmptyFun]

Levelled(meth, lv, up) ==
  LET one(l) == [DefaultFlavor EXCEPT !.meth = Builtin(meth), !.bind = ("level" :> lv[l])]
  IN [one(up) EXCEPT !.sub = [l \in DOMAIN lv |-> one(l)]]

LogLevels == [error |-> ":: log :: Level :: Error", warn |-> ":: log :: Level :: Warn",
              info |-> ":: log :: Level :: Info", debug |-> ":: log :: Level :: Debug",
              trace |-> ":: log :: Level :: Trace"]
TracingLevels == [error |-> ":: tracing :: Level :: ERROR", warn |-> ":: tracing :: Level :: WARN",
                  info |-> ":: tracing :: Level :: INFO", debug |-> ":: tracing :: Level :: DEBUG",
                  trace |-> ":: tracing :: Level :: TRACE"]

BuiltinFlavors(features) ==
  LET base == ("default" :> DefaultFlavor) @@ ("empty" :> EmptyFlavor)
              @@ ("hook" :> [DefaultFlavor EXCEPT !.meth = Builtin("hook")])
      log == ("log" :> Levelled("log", LogLevels, "error"))
      tracing == ("tracing" :> Levelled("tracing", TracingLevels, "error"))
      anyhow == ("anyhow" :> [DefaultFlavor EXCEPT !.meth = Builtin("context"),
                                                   !.traits = <<":: anyhow :: Context">>])
      eyre == ("eyre" :> [DefaultFlavor EXCEPT !.meth = Builtin("wrap"),
                            !.traits = <<":: eyre :: ContextCompat", ":: eyre :: WrapErr">>])
      color == ("color_eyre" :> [DefaultFlavor EXCEPT !.meth = Builtin("wrap"),
                   !.traits = <<":: color_eyre :: eyre :: ContextCompat", ":: color_eyre :: eyre :: WrapErr">>])
      pick(f, x) == IF f \in features THEN x ELSE EmptyFun
  IN base @@ pick("log", log) @@ pick("tracing", tracing) @@ pick("anyhow", anyhow)
          @@ pick("eyre", eyre @@ color)

-----------------------------------------------------------------------------
(* hooq.toml: a sequence of entries [n |-> name, t |-> table], a table is   *)
(* [method, targets, tails, tailsx, ignore, results, macros, traits |-> <<>> *)
(* or <<value>>; bind |-> sequence of pairs; sub |-> sequence of entries].  *)

Pick(opt, old) == IF opt = <<>> THEN old ELSE opt[1]

IgnoreOf(t, old) ==
  \* names marked with `!' in tail_expr_idents are to be ignored as well
  LET x == IF t.tails # <<>> THEN t.tailsx ELSE <<>>
  IN IF t.ignore # <<>> THEN x \o t.ignore[1]
     ELSE IF x # <<>> THEN x
     ELSE old

RECURSIVE Overlay(_, _, _)
Overlay(flavors, entries, base) ==
  IF entries = <<>> THEN flavors
  ELSE
    LET e == entries[1]
        t == e.t
        old == IF e.n \in DOMAIN flavors THEN flavors[e.n] ELSE base
        own == [meth |-> Pick(t.method, old.meth),
                targets |-> IF t.targets = <<>> THEN old.targets ELSE TargetSet(t.targets[1]),
                tails |-> Pick(t.tails, old.tails),
                ignore |-> IgnoreOf(t, old.ignore),
                results |-> Pick(t.results, old.results),
                macros |-> Pick(t.macros, old.macros),
                bind |-> Over(old.bind, FunOfPairs(t.bind)),
                traits |-> Pick(t.traits, old.traits),
                sub |-> old.sub]
        new == [own EXCEPT !.sub = Overlay(old.sub, t.sub, own)]
    IN Overlay(Over(flavors, (e.n :> new)), Tail(entries), base)

Flavors(features, toml) == Overlay(BuiltinFlavors(features), toml, DefaultFlavor)

RECURSIVE HasFlavor(_, _)
HasFlavor(flavors, path) ==
  /\ path # <<>>
  /\ path[1] \in DOMAIN flavors
  /\ (Len(path) > 1 => HasFlavor(flavors[path[1]].sub, Tail(path)))

RECURSIVE FlavorAt(_, _)
FlavorAt(flavors, path) ==
  IF Len(path) = 1 THEN flavors[path[1]] ELSE FlavorAt(flavors[path[1]].sub, Tail(path))

-----------------------------------------------------------------------------
(* The settings in force at a node. meth is the stack of methods set so    *)
(* far, the one in force last; skip is "no", "scope" or "all".             *)

Context(fl) ==
  [meth |-> <<fl.meth>>, targets |-> fl.targets, tails |-> fl.tails, ignore |-> fl.ignore,
   results |-> fl.results, macros |-> fl.macros, bind |-> fl.bind, skip |-> "no"]

NoUpdate == [meth |-> <<>>, targets |-> <<>>, tails |-> <<>>, ignore |-> <<>>,
             results |-> <<>>, macros |-> <<>>, bind |-> EmptyFun]

\* an attribute hooq must reject: malformed, or naming what does not exist
BadAttr(a, flavors) ==
  \/ a.s = "bad"
  \/ a.s = "targets" /\ \E w \in Range(a.v) : ~KnownTargetWord(w)
  \/ a.s = "flavor" /\ ~HasFlavor(flavors, a.p)

\* a hooq.toml that must be rejected whatever is asked of it
RECURSIVE BadToml(_)
BadToml(entries) ==
  \E i \in DOMAIN entries :
    LET e == entries[i] IN
    \/ e.n \in {"", "empty"}
    \/ e.t.targets # <<>> /\ \E w \in Range(e.t.targets[1]) : ~KnownTargetWord(w)
    \/ BadToml(e.t.sub)

\* what one attribute adds to the changes gathered from a node's earlier ones
UpdateBy(u, a, flavors) ==
  LET fl == FlavorAt(flavors, a.p)
      more(x) == IF u.ignore = <<>> THEN <<x>> ELSE <<u.ignore[1] \o x>>
  IN
  CASE BadAttr(a, flavors) -> u
    [] a.s = "method" -> [u EXCEPT !.meth = <<a.m>>]
    [] a.s = "targets" -> [u EXCEPT !.targets = <<TargetSet(a.v)>>]
    [] a.s = "tails" -> [u EXCEPT !.tails = <<a.v>>,
                                  !.ignore = IF u.ignore = <<>> /\ a.x = <<>> THEN <<>> ELSE more(a.x)]
    [] a.s = "ignore" -> [u EXCEPT !.ignore = more(a.v)]
    [] a.s = "results" -> [u EXCEPT !.results = <<a.v>>]
    [] a.s = "macros" -> [u EXCEPT !.macros = <<a.b>>]
    [] a.s = "bind" -> [u EXCEPT !.bind = Over(u.bind, (a.n :> a.t))]
    [] a.s = "flavor" /\ a.w = "flavor" ->
         [meth |-> <<fl.meth>>, targets |-> <<fl.targets>>, tails |-> <<fl.tails>>,
          ignore |-> <<fl.ignore>>, results |-> <<fl.results>>, macros |-> <<fl.macros>>,
          bind |-> Over(u.bind, fl.bind)]
    [] a.s = "flavor" /\ a.w = "method" -> [u EXCEPT !.meth = <<fl.meth>>]
    [] a.s = "flavor" /\ a.w = "hook_targets" -> [u EXCEPT !.targets = <<fl.targets>>]
    [] a.s = "flavor" /\ a.w = "tail_expr_idents" -> [u EXCEPT !.tails = <<fl.tails>>, !.ignore = <<fl.ignore>>]
    [] a.s = "flavor" /\ a.w = "result_types" -> [u EXCEPT !.results = <<fl.results>>]
    [] a.s = "flavor" /\ a.w = "hook_in_macros" -> [u EXCEPT !.macros = <<fl.macros>>]
    [] a.s = "flavor" /\ a.w = "bindings" -> [u EXCEPT !.bind = Over(u.bind, fl.bind)]
    [] OTHER -> u

RECURSIVE UpdateOf(_, _, _)
UpdateOf(u, at, flavors) ==
  IF at = <<>> THEN u ELSE UpdateOf(UpdateBy(u, at[1], flavors), Tail(at), flavors)

Words(at) == { at[i].s : i \in DOMAIN at }

SkipAfter(skip, at) ==
  IF skip = "all" \/ "skip_all" \in Words(at) THEN "all"
  ELSE IF "skip" \in Words(at) THEN "scope"
  ELSE skip

\* the settings inside a node with attributes `at'
Enter(ctx, at, flavors) ==
  IF at = <<>> THEN ctx
  ELSE
  LET u == UpdateOf(NoUpdate, at, flavors)
  IN [meth |-> IF u.meth = <<>> THEN ctx.meth ELSE Append(ctx.meth, u.meth[1]),
      targets |-> Pick(u.targets, ctx.targets),
      tails |-> Pick(u.tails, ctx.tails),
      ignore |-> Pick(u.ignore, ctx.ignore),
      results |-> Pick(u.results, ctx.results),
      macros |-> Pick(u.macros, ctx.macros),
      bind |-> Over(ctx.bind, u.bind),
      skip |-> SkipAfter(ctx.skip, at)]

\* the settings in a scope nested in a node
SubScope(ctx) == [ctx EXCEPT !.skip = IF @ = "all" THEN "all" ELSE "no"]
=============================================================================
