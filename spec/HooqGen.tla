------------------------------ MODULE HooqGen ------------------------------
(***************************************************************************)
(* All small annotated programs, with their text, built step by step while *)
(* the machine of HooqWalk reads them. Two uses:                           *)
(*                                                                         *)
(*  - the invariants below say, looking at a program as a whole, what its  *)
(*    machine must do (nearest attribute, reach of skip, numbers as        *)
(*    cardinalities): TLC checks them on every program within the bounds;  *)
(*  - every finished program is printed, put to the real macro, and what   *)
(*    is recorded there must have the structure given here and be a        *)
(*    behaviour of the machine (HooqTrace).                                *)
(***************************************************************************)
EXTENDS HooqWalk, Json, IOUtils

Num(s) == CHOOSE n \in 0..20 : ToString(n) = s

Focus == IOEnv.FOCUS
MaxNodes == Num(IOEnv.NODES)
MaxAttrs == Num(IOEnv.ATTRS)
MaxDepth == Num(IOEnv.DEPTH)

VARIABLES todo, text, ev, tow, nodes, attrs, M

vars == <<todo, text, ev, tow, nodes, attrs, M>>

-----------------------------------------------------------------------------
(* Attributes: the text and what it says. *)

NoM == [m |-> "x", exc |-> FALSE, seq |-> <<>>, body |-> "expr"]
At(s) == [s |-> s, w |-> "", p |-> <<>>, m |-> NoM, n |-> "", t |-> "", v |-> <<>>, x |-> <<>>, b |-> FALSE]

Alt(txt, at) == [txt |-> "#[hooq::" \o txt \o "] ", at |-> <<at>>]

Label ==
  CASE Focus = "fn" -> <<"fn_name", "fn_sig">>
    [] Focus = "pos" -> <<"line", "col", "count">>
    [] Focus = "source" -> <<"source", "expr">>
    [] Focus = "bind" -> <<"count", "b_one">>
    [] OTHER -> <<"count">>

RECURSIVE FieldsText(_, _)
FieldsText(ls, i) == IF i > Len(ls) THEN "" ELSE ", __f!(" \o ls[i] \o ", $" \o ls[i] \o ")" \o FieldsText(ls, i + 1)

El(tag, ls) == [so |-> FALSE, tag |-> tag, f |-> ls]
So == [so |-> TRUE, tag |-> "", f |-> <<>>]
Bang(exc) == IF exc THEN "!" ELSE ""

InsText(tag, ls) == ".__vp(\"" \o tag \o "\"" \o FieldsText(ls, 1) \o ")"

Method1(txt, m) == Alt("method(" \o txt \o ")", [At("method") EXCEPT !.m = m])
Ins(tag, ls, exc) == Method1(InsText(tag, ls) \o Bang(exc), [m |-> "i", exc |-> exc, seq |-> <<El(tag, ls)>>, body |-> "expr"])
Wrap(tag, ls, exc) ==
  Method1("__vw(\"" \o tag \o "\"" \o FieldsText(ls, 1) \o ", $expr)" \o Bang(exc),
          [m |-> "r", exc |-> exc, seq |-> <<El(tag, ls)>>, body |-> "expr"])
Before(tag, ls) == Method1(".$so_far" \o InsText(tag, ls), [m |-> "i", exc |-> FALSE, seq |-> <<So, El(tag, ls)>>, body |-> "expr"])
After(tag, ls) == Method1(InsText(tag, ls) \o ".$so_far", [m |-> "i", exc |-> FALSE, seq |-> <<El(tag, ls), So>>, body |-> "expr"])
Again == Method1(".$so_far.$so_far", [m |-> "i", exc |-> FALSE, seq |-> <<So, So>>, body |-> "expr"])
Around(tag, ls) ==
  Method1("__vw(\"" \o tag \o "\"" \o FieldsText(ls, 1) \o ", $expr.$so_far)",
          [m |-> "r", exc |-> FALSE, seq |-> <<El(tag, ls)>>, body |-> "expr.so"])

RECURSIVE Quoted(_)
Quoted(v) == IF v = <<>> THEN "" ELSE "\"" \o v[1] \o "\"" \o (IF Len(v) > 1 THEN ", " ELSE "") \o Quoted(Tail(v))
List(name, s, v) == Alt(name \o "(" \o Quoted(v) \o ")", [At(s) EXCEPT !.v = v])

Alternatives ==
  CASE Focus = "skip" -> { Alt("skip", At("skip")), Alt("skip_all", At("skip_all")) }
    [] Focus = "method" -> { Ins("m2", Label, FALSE), Wrap("m3", Label, FALSE) }
    [] Focus = "mixed" -> { Ins("m2", Label, FALSE), Alt("skip", At("skip")), List("hook_targets", "targets", <<"return", "tail_expr">>),
                            Alt("hook_in_macros(false)", [At("macros") EXCEPT !.b = FALSE]) }
    [] Focus \in {"pos", "source"} -> { Ins("m2", Label, FALSE), Wrap("m3", Label, TRUE) }
    [] Focus = "targets" -> { List("hook_targets", "targets", v) : v \in {<<>>, <<"?">>, <<"return">>, <<"tail_expr">>, <<"all">>} }
    [] Focus = "macros" -> { Alt("hook_in_macros(false)", At("macros")), Alt("hook_in_macros(true)", [At("macros") EXCEPT !.b = TRUE]),
                             Alt("skip", At("skip")) }
    [] Focus = "so" -> { Ins("m2", Label, FALSE), Before("m3", Label), After("m4", Label), Again, Around("m5", Label) }
    [] Focus = "exc" -> { Ins("m2", Label, TRUE), Wrap("m3", Label, TRUE), Ins("m4", Label, FALSE), Alt("skip", At("skip")),
                          List("hook_targets", "targets", <<"return">>), List("ignore_tail_expr_idents", "ignore", <<"__vw">>) }
    [] Focus = "values" -> { List("tail_expr_idents", "tails", <<"g", "Ok">>), List("ignore_tail_expr_idents", "ignore", <<"Err">>),
                             List("result_types", "results", <<"u8">>), List("tail_expr_idents", "tails", <<>>) }
    [] Focus = "bind" -> { Alt("b_one = 42", [At("bind") EXCEPT !.n = "b_one", !.t = "42"]),
                           Alt("binding(b_one = f ( 1 ))", [At("bind") EXCEPT !.n = "b_one", !.t = "f ( 1 )"]),
                           Alt("b_two = 7", [At("bind") EXCEPT !.n = "b_two", !.t = "7"]),
                           Ins("m2", <<"b_two">>, FALSE) }
    [] Focus = "bad" -> { Alt("skip()", At("bad")), Alt("unknown", At("bad")), Alt("hook_in_macros(false)", At("macros")), Alt("skip_all", At("skip_all")) }
    [] OTHER -> {}

\* `$so_far' is only used where the method so far is an inserted one of ours
Allowed(alt, ctx, first) ==
  alt.at[1].s = "method" =>
    LET m == alt.at[1].m IN (m.body = "expr.so" \/ \E i \in DOMAIN m.seq : m.seq[i].so) => (~first /\ Method(ctx).m = "i" /\ Method(ctx).body = "expr")

-----------------------------------------------------------------------------
(* Pieces of programs: x text, o and c events, g a goal to be filled in.   *)

X(s) == << [t |-> "x", x |-> s] >>
Pos == [line |-> 0, col |-> 0, src |-> ""]
OpenEv(e) == << [t |-> "o", ev |-> e] >>
CloseEv(k) == << [t |-> "c", k |-> k] >>
\* a body, from here on; `m': what comes before would be its value if nothing followed
Body(r, d) == << [t |-> "g", r |-> r, d |-> d, m |-> FALSE] >>

Within(e, ps) == OpenEv([e |-> "o"] @@ e) \o ps \o CloseEv(e.k)

Scope(ps) == Within([k |-> "scope"], ps)
Slot(r, callee, ret, top, at, ps) ==
  Within([k |-> "slot", r |-> r, callee |-> callee, ret |-> ret, top |-> top, ver |-> FALSE, at |-> at] @@ Pos, ps)
Node(at, ps) == IF at = <<>> THEN ps ELSE Within([k |-> "node", at |-> at], ps)
Quest(at, ps) == Within([k |-> "q", at |-> at] @@ Pos, ps)
Return(at, ps) == Within([k |-> "ret", at |-> at] @@ Pos, ps)
Macro(at, ps) == Within([k |-> "macro", at |-> at, parsed |-> TRUE, toks |-> ""], ps)
Fn(at, name, rt, ps) == Within([k |-> "fn", at |-> at, name |-> name, sig |-> "sig", rt |-> rt], ps)
Closure(at, rt, ps) == Within([k |-> "closure", at |-> at, sig |-> "sig", rt |-> rt], ps)
Block(r, d) == X("{ ") \o Scope(Body(r, d)) \o X(" }")

\* `g()?' as an expression of role r, with attributes on the slot (a tail) or on the `?' itself
Q(r, sat, qat, txt) == Slot(r, "", FALSE, TRUE, sat, Quest(qat, X(txt)))

\* statements: what each is with the attribute a
Stmts(a, d) ==
  LET at == a.at  T == X(a.txt)
  IN [q |-> T \o Q("x", <<>>, at, "g()?; "),
      qq |-> T \o Slot("x", "", FALSE, TRUE, <<>>, Quest(at, Slot("x", "", FALSE, TRUE, <<>>, Quest(<<>>, X("g()?"))) \o X(".h()?; "))),
      let |-> T \o X("let x = ") \o Node(at, Q("x", <<>>, <<>>, "g()?; ")),
      letelse |-> T \o X("let Some(x) = ") \o Node(at, Q("x", <<>>, <<>>, "g()? ") \o X("else ") \o Block("blk", d)) \o X("; "),
      block |-> T \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, Block("blk", d))) \o X(" "),
      closure |-> T \o X("let c = || -> Result<u8, E> ") \o Node(at, Closure(<<>>, "Result", Block("fn", d))) \o X("; "),
      closureu |-> X("c(") \o Slot("x", "c", FALSE, FALSE, <<>>, T \o X("|x| -> u8 ") \o Closure(at, "u8", Block("fn", d))) \o X("); "),
      closuree |-> T \o X("let c = || ") \o Node(at, Closure(<<>>, "", Slot("fn", "Err", FALSE, FALSE, <<>>, X("Err(g(2))")))) \o X("; "),
      fn |-> T \o X("fn h() -> Result<u8, E> ") \o Fn(at, "h", "Result", Block("fn", d)) \o X(" "),
      fnu |-> T \o X("fn k() -> u8 ") \o Fn(at, "k", "u8", Block("fn", d)) \o X(" "),
      impl |-> T \o X("impl S { ") \o Node(at, X("fn m(&self) -> Result<u8, E> ") \o Fn(<<>>, "m", "Result", Block("fn", d)) \o X(" const C: u8 = ")
                 \o Slot("x", "", FALSE, TRUE, <<>>, Quest(<<>>, X("g()?"))) \o X("; ")) \o X("} "),
      ret |-> T \o X("return ") \o Return(at, Slot("retval", "Err", FALSE, FALSE, <<>>, X("Err(1)"))) \o X("; "),
      retok |-> T \o X("return ") \o Return(at, Slot("retval", "Ok", FALSE, FALSE, <<>>, X("Ok(1)"))) \o X("; "),
      retq |-> T \o X("return ") \o Return(at, Q("retval", <<>>, <<>>, "g()?")) \o X("; "),
      retn |-> T \o X("return") \o Return(at, <<>>) \o X("; "),
      macro |-> T \o X("m!(") \o Macro(at, Q("x", <<>>, <<>>, "g()?, ") \o Slot("x", "", FALSE, TRUE, <<>>, Quest(<<>>, X("h()?")))) \o X("); "),
      macroin |-> X("m!(") \o Macro(<<>>, T \o Q("x", <<>>, at, "g()?") \o X("; ") \o X("fn h() -> u8 ") \o Fn(<<>>, "h", "u8", Block("fn", d))) \o X("); "),
      macroblk |-> T \o X("m!(") \o Macro(at, Block("blk", d)) \o X("); "),
      macronest |-> X("m!(") \o Macro(<<>>, T \o X("m!(") \o Macro(at, Q("x", <<>>, <<>>, "g()?")) \o X("); ")) \o X("); "),
      if |-> T \o X("if ") \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, Q("x", <<>>, <<>>, "g()? ") \o Block("blk", d) \o X(" else ")
               \o Scope(Block("blk", d)))) \o X(" "),
      match |-> T \o X("match ") \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, Q("x", <<>>, <<>>, "g()? ") \o X("{ ")
               \o Scope(X("A if ") \o Q("x", <<>>, <<>>, "h()? ") \o X("=> ") \o Slot("blk", "Err", FALSE, FALSE, <<>>, X("Err(1)")) \o X(", _ => ")
                        \o Block("blk", d)) \o X(" } "))),
      loop |-> T \o X("loop ") \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, Block("blk", d))) \o X(" "),
      while |-> T \o X("while ") \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, Q("x", <<>>, <<>>, "g()? ") \o Block("blk", d))) \o X(" "),
      async |-> X("let y = ") \o T \o Slot("x", "", FALSE, FALSE, <<>>, Node(at, X("async ") \o Block("blk", d))) \o X("; ")]

\* statements that need no semicolon
BlockLike == {"block", "if", "match", "loop", "while"}
Plain == Slot("x", "x", FALSE, FALSE, <<>>, X("x(); "))

\* last expressions of a body in role r
Tails(a, r, d) ==
  LET at == a.at  T == X(a.txt)
  IN [err |-> T \o Slot(r, "Err", FALSE, FALSE, at, X("Err(1)")),
      ok |-> T \o Slot(r, "Ok", FALSE, FALSE, at, X("Ok(1)")),
      call |-> T \o Slot(r, "g", FALSE, FALSE, at, X("x::g(") \o Slot("x", "", FALSE, TRUE, <<>>, Quest(<<>>, X("a?"))) \o X(")")),
      tq |-> T \o Q(r, at, <<>>, "g()?"),
      errq |-> T \o Q(r, at, <<>>, "Err(1)?"),
      path |-> Slot(r, "", FALSE, FALSE, <<>>, X("x")),
      tret |-> T \o Slot(r, "", TRUE, FALSE, at, X("return ") \o Return(<<>>, Slot("retval", "Err", FALSE, FALSE, <<>>, X("Err(1)")))),
      tblock |-> T \o Slot(r, "", FALSE, FALSE, at, Block("blk", d)),
      tif |-> T \o Slot(r, "", FALSE, FALSE, at, X("if ") \o Q("x", <<>>, <<>>, "g()? ") \o Block("blk", d) \o X(" else ") \o Scope(Block("blk", d)))]

\* what each focus uses
Nest == {"block", "closure", "fn"}
StmtNames ==
  CASE Focus = "skip" -> {"q", "let", "letelse", "block", "closure", "fn", "ret", "macro", "macroblk", "if", "match", "loop", "while"}
    [] Focus \in {"method", "mixed"} -> {"q", "qq", "let", "block", "closureu", "fn", "impl", "ret", "macro", "match"}
    [] Focus = "targets" -> {"q", "let", "block", "closure", "ret", "retq", "match", "macro"}
    [] Focus = "macros" -> {"q", "macro", "macroin", "macroblk", "macronest", "block", "fn", "closure"}
    [] Focus = "so" -> {"q", "qq", "block", "closure", "fn", "ret", "if"}
    [] Focus = "exc" -> {"q", "qq", "retq", "ret", "block", "macro"}
    [] Focus = "values" -> {"closure", "closureu", "closuree", "fnu", "ret", "retok", "retq", "block", "match", "if"}
    [] Focus = "bind" -> {"q", "let", "block", "closure", "fn", "macro"}
    [] Focus = "bad" -> {"q", "let", "macro", "macroin", "block", "closureu", "fn", "ret", "if"}
    [] Focus = "count" -> {"q", "qq", "retn", "ret", "fn", "closure", "closureu", "closuree", "block", "macroin", "impl", "match", "async"}
    [] Focus = "fn" -> {"q", "fn", "fnu", "closure", "closureu", "closuree", "impl", "macroin", "async"}
    [] Focus \in {"pos", "source"} -> {"q", "qq", "let", "ret", "retq", "macro", "match", "closuree", "block"}
    [] OTHER -> {"q", "qq", "let", "letelse", "block", "closure", "closureu", "closuree", "fn", "impl", "ret", "retok", "retq", "retn", "macro",
                 "macroin", "macroblk", "macronest", "if", "match", "loop", "while", "async"}
TailNames ==
  CASE Focus \in {"skip", "targets", "so", "method", "mixed", "bind"} -> {"err", "tq"}
    [] Focus \in {"values"} -> {"err", "ok", "call", "errq", "tret", "tblock", "tif", "path"}
    [] Focus = "exc" -> {"errq", "tq", "call"}
    [] Focus \in {"count", "pos", "source"} -> {"err", "call"}
    [] Focus = "bad" -> {"err"}
    [] Focus = "fn" -> {"err"}
    [] Focus = "macros" -> {"tq"}
    [] OTHER -> {"err", "ok", "call", "tq", "errq", "path", "tret", "tblock", "tif"}

\* nodes a piece takes from the budget
NoAttr == [txt |-> "", at |-> <<>>]

-----------------------------------------------------------------------------
(* Read pieces until the next goal. *)

RECURSIVE Run(_)
Run(s) ==
  IF s.todo = <<>> \/ s.todo[1].t = "g" THEN s
  ELSE
  LET p == s.todo[1]
      s1 == [s EXCEPT !.todo = Tail(@)]
  IN CASE p.t = "x" -> Run([s1 EXCEPT !.text = @ \o p.x])
       [] p.t = "o" -> LET n == Len(s1.ev) + 1
                e == IF "line" \in DOMAIN p.ev THEN [p.ev EXCEPT !.line = n, !.src = "src" \o ToString(n)]
                     ELSE IF "sig" \in DOMAIN p.ev THEN [p.ev EXCEPT !.sig = "sig" \o ToString(n)] ELSE p.ev
            IN Run([s1 EXCEPT !.ev = Append(@, e), !.M = Open(@, e)])
       [] p.t = "c" ->
            LET e == [e |-> "c", k |-> p.k]
                s2 == IF p.k = "slot"
                      THEN [s1 EXCEPT !.tow = Append(@, [at |-> Len(s1.ev) + 1, tower |-> Top(FinishSlot(s1.M).st).tower])]
                      ELSE s1
            IN Run([s2 EXCEPT !.ev = Append(@, e), !.M = Close(@, e)])

RootMethod == IF Focus = "bind" THEN Ins("m1", <<"count", "b_one">>, FALSE) ELSE IF Focus = "exc" THEN Wrap("m1", Label, FALSE) ELSE Ins("m1", Label, FALSE)

RootAttrs == IF Focus = "bind" THEN <<RootMethod, Alt("b_one = 1", [At("bind") EXCEPT !.n = "b_one", !.t = "1"])>> ELSE <<RootMethod>>

RECURSIVE JoinTxt(_), JoinAt(_)
JoinTxt(as) == IF as = <<>> THEN "" ELSE as[1].txt \o JoinTxt(Tail(as))
JoinAt(as) == IF as = <<>> THEN <<>> ELSE as[1].at \o JoinAt(Tail(as))

\* the annotated item: a function that returns a Result or does not, perhaps with one attribute more
RootSets == {RootAttrs} \cup { Append(RootAttrs, a) : a \in { b \in Alternatives : b.at[1].s # "method" } }

Root(as, rt, full) ==
  [text |-> JoinTxt(as), ps |-> Fn(JoinAt(as), "f", rt, X("fn f() -> " \o full \o " ") \o Block("fn", 0))]

Roots == { Root(as, "Result", "Result<u8, E>") : as \in RootSets }
         \cup (IF Focus \in {"values", "targets", "exc"} THEN { Root(as, "u8", "u8") : as \in RootSets } ELSE {})

Start(root) ==
  [todo |-> root.ps, text |-> root.text, ev |-> <<>>, tow |-> <<>>,
   M |-> Initial(BuiltinFlavors({}), <<"default">>, [path |-> "main.rs", name |-> "main.rs"], FALSE)]

Set(s) == /\ todo' = s.todo /\ text' = s.text /\ ev' = s.ev /\ tow' = s.tow /\ M' = s.M

Init ==
  /\ nodes = 0 /\ attrs = 0
  /\ \E root \in Roots :
       LET s == Run(Start(root))
       IN todo = s.todo /\ text = s.text /\ ev = s.ev /\ tow = s.tow /\ M = s.M

Now == [todo |-> Tail(todo), text |-> text, ev |-> ev, tow |-> tow, M |-> M]

Choices == {NoAttr} \cup (IF attrs < MaxAttrs THEN { a \in Alternatives : Allowed(a, Top(M.st).ctx, FALSE) } ELSE {})

HasGoal(ps) == \E i \in DOMAIN ps : ps[i].t = "g"

Fill ==
  /\ todo # <<>>
  /\ LET g == todo[1] IN
     \* nothing more in this body
     \/ /\ Set(Run([Now EXCEPT !.todo = (IF g.m THEN Plain ELSE <<>>) \o @]))
        /\ UNCHANGED <<nodes, attrs>>
     \* one more statement
     \/ /\ nodes < MaxNodes
        /\ \E a \in Choices :
             LET st == Stmts(a, g.d + 1) IN
             \E n \in StmtNames :
               /\ (HasGoal(st[n]) => g.d < MaxDepth)
               /\ Set(Run([Now EXCEPT !.todo = st[n] \o << [g EXCEPT !.m = n \in BlockLike] >> \o @]))
               /\ nodes' = nodes + 1
               /\ attrs' = attrs + Len(a.at)
     \* a last expression
     \/ /\ nodes < MaxNodes
        /\ \E a \in Choices :
             LET tl == Tails(a, g.r, g.d + 1) IN
             \E n \in TailNames :
               /\ (HasGoal(tl[n]) => g.d < MaxDepth)
               /\ (n = "path" => a = NoAttr)
               /\ Set(Run([Now EXCEPT !.todo = tl[n] \o @]))
               /\ nodes' = nodes + 1
               /\ attrs' = attrs + Len(a.at)

Next == Fill
Spec == Init /\ [][Next]_vars

Finished == todo = <<>>

Emit == Finished => PrintT("PROG " \o ToJson([text |-> text, ev |-> ev, bad |-> M.bad]))

-----------------------------------------------------------------------------
(* The program as a whole. *)

\* indices of the events that are open at i (i included if it opens)
RECURSIVE OpenAt(_, _, _)
OpenAt(j, i, stack) ==
  IF j > i THEN stack
  ELSE OpenAt(j + 1, i, IF ev[j].e = "o" THEN Append(stack, j) ELSE Pop(stack))

PathTo(i) == OpenAt(1, i, <<>>)

\* the event that a close closes
Opener(i) == Top(PathTo(i - 1))

AtsOf(j) == IF "at" \in DOMAIN ev[j] THEN ev[j].at ELSE <<>>

\* what a path's attributes say, outermost first; those inside a switched-off macro say nothing
RECURSIVE Heard(_, _, _)
Heard(path, off, macros) ==
  IF path = <<>> THEN <<>>
  ELSE
  LET j == path[1]
      own == IF off THEN <<>> ELSE AtsOf(j)
      on == LET ms == SelectSeq(own, LAMBDA a : a.s = "macros") IN IF ms = <<>> THEN macros ELSE Top(ms).b
  IN << own >> \o Heard(Tail(path), off \/ (ev[j].k = "macro" /\ ~on), on)

HeardFlat(path) == Concat(Heard(path, FALSE, TRUE))

LastSaid(path, s, default) ==
  LET as == SelectSeq(HeardFlat(path), LAMBDA a : a.s = s) IN IF as = <<>> THEN default ELSE Top(as)

\* inside the arguments of a macro that is switched off
RECURSIVE IsOff(_, _)
IsOff(path, macros) ==
  IF path = <<>> THEN FALSE
  ELSE LET j == path[1]
           ms == SelectSeq(AtsOf(j), LAMBDA a : a.s = "macros")
           on == IF ms = <<>> THEN macros ELSE Top(ms).b
       IN (ev[j].k = "macro" /\ ~on) \/ IsOff(Tail(path), on)

\* skip reaches to the next scope, skip_all everywhere below
Skipped(path) ==
  LET h == Heard(path, FALSE, TRUE) IN
  \/ \E i \in DOMAIN path : "skip_all" \in Words(h[i])
  \/ \E i \in DOMAIN path : "skip" \in Words(h[i]) /\ ~\E k \in i + 1..Len(path) : ev[path[k]].k = "scope"

Counted(path) == ~IsOff(path, TRUE) /\ ~Skipped(path)

\* the function a path is in: its innermost one
FnOf(path) ==
  LET fs == { i \in DOMAIN path : ev[path[i]].k = "fn" } IN IF fs = {} THEN 0 ELSE path[CHOOSE i \in fs : \A k \in fs : k <= i]

\* every target so far: where it counts, its kind, the way to it
QuestTargets ==
  { [i |-> i, kind |-> "q", path |-> PathTo(i - 1)] : i \in { j \in DOMAIN ev : ev[j].e = "c" /\ ev[j].k = "q" } }

ValueTargets ==
  { [i |-> tow[t].at, kind |-> Top(tow[t].tower).kind, path |-> PathTo(tow[t].at - 1)] :
    t \in { u \in DOMAIN tow : tow[u].tower # <<>> /\ Top(tow[u].tower).kind # "q" } }

Targets == QuestTargets \cup ValueTargets

NumberOf(x) ==
  Cardinality({ y \in Targets : y.kind = x.kind /\ y.i <= x.i /\ Counted(y.path) /\ FnOf(y.path) = FnOf(x.path) })

\* the methods said on the way, the last one first; each says how it uses the one before it
RECURSIVE Tags(_, _)
Tags(ms, i) ==
  IF i = 0 THEN <<>>
  ELSE LET m == ms[i]
           of(e) == IF e.so THEN Tags(ms, i - 1) ELSE <<e.tag>>
       IN (IF m.body = "expr.so" THEN Tags(ms, i - 1) ELSE <<>>) \o Concat([j \in DOMAIN m.seq |-> of(m.seq[j])])

\* a node's methods: the last one of each node that has one
MethodsOn(path) ==
  LET h == Heard(path, FALSE, TRUE)
      one(i) == LET as == SelectSeq(h[i], LAMBDA a : a.s = "method") IN IF as = <<>> THEN <<>> ELSE <<Top(as).m>>
  IN Concat([i \in DOMAIN h |-> one(i)])

WantedTags(path) == LET ms == MethodsOn(path) IN Tags(ms, Len(ms))

TargetsOn(path, kind) ==
  LET a == LastSaid(path, "targets", At("none")) IN IF a.s = "none" THEN TRUE ELSE kind \in TargetSet(a.v)

\* the owners of a tower and the targets they are
OwnersOf(t) ==
  LET close == tow[t].at
      me == Opener(close)
      mine == { x \in QuestTargets : x.i < close /\ x.i > me /\
                  LET p == x.path IN \E k \in DOMAIN p : p[k] = me /\ ~\E l \in k + 1..Len(p) : ev[p[l]].k = "slot" }
      seq == [n \in 1..Cardinality(mine) |-> CHOOSE x \in mine : Cardinality({ y \in mine : y.i <= x.i }) = n]
  IN seq \o (IF tow[t].tower # <<>> /\ Top(tow[t].tower).kind # "q"
             THEN << [i |-> close, kind |-> Top(tow[t].tower).kind, path |-> PathTo(close - 1)] >> ELSE <<>>)

\* a `?' and a `return' are where their tokens are, a value where it begins
PlaceOf(x) == IF x.kind = "ret" THEN x.path[Len(x.path) - 1] ELSE Top(x.path)

RightOwner(ow, x) ==
  LET hooked == Counted(x.path) /\ TargetsOn(x.path, x.kind)
  IN /\ ow.kind = x.kind
     /\ [i \in DOMAIN ow.layers |-> ow.layers[i].tag] = (IF hooked THEN WantedTags(x.path) ELSE <<>>)
     /\ \A i \in DOMAIN ow.layers : LET f == ow.layers[i].f IN
          /\ "line" \in DOMAIN f => f["line"] = ToString(PlaceOf(x))
          /\ "source" \in DOMAIN f => f["source"] = "src" \o ToString(PlaceOf(x))
          /\ "fn_sig" \in DOMAIN f =>
               LET fs == { i2 \in DOMAIN x.path : ev[x.path[i2]].k \in {"fn", "closure"} }
               IN f["fn_sig"] = (IF fs = {} THEN Unknown ELSE "sig" \o ToString(x.path[CHOOSE i2 \in fs : \A k \in fs : k <= i2]))
          /\ "count" \in DOMAIN f => f["count"] = CountText(NumberOf(x), x.kind)
          /\ "b_one" \in DOMAIN f =>
               LET bs == SelectSeq(HeardFlat(x.path), LAMBDA a : a.s = "bind" /\ a.n = "b_one")
               IN f["b_one"] = (IF bs = <<>> THEN "?unbound" ELSE Top(bs).t)
          /\ "fn_name" \in DOMAIN f =>
               LET p == x.path
                   fs == { i2 \in DOMAIN p : ev[p[i2]].k \in {"fn", "closure"} }
                   last == IF fs = {} THEN 0 ELSE CHOOSE i2 \in fs : \A k \in fs : k <= i2
                   base == IF FnOf(p) = 0 THEN Unknown ELSE ev[FnOf(p)].name
               IN f["fn_name"] = (IF last = 0 THEN Unknown ELSE IF ev[p[last]].k = "fn" THEN base ELSE "__closure_in_" \o base \o "__")
     /\ ow.consumed = (x.kind = "q" /\ hooked /\ LET ms == MethodsOn(x.path) IN Top(ms).exc)

\* looked at when a tower has just been finished: the newest ones
Newest == { t \in DOMAIN tow : tow[t].at > Len(ev) - 12 \/ Finished }

TowersRight ==
  \A t \in DOMAIN tow :
    LET os == OwnersOf(t)
    IN Len(os) = Len(tow[t].tower) /\ \A k \in DOMAIN os : RightOwner(tow[t].tower[k], os[k])

\* what the value of a body or of a `return' is a call of: a value whose own `?' went is what replaced it
CalleeOf(e, path, me, close) ==
  LET own == { x \in QuestTargets : x.path = Append(path, me + 1) }
  IN IF e.top /\ \E x \in own : Counted(x.path) /\ TargetsOn(x.path, "q") /\ Top(MethodsOn(x.path)).exc /\ Top(MethodsOn(x.path)).m = "r"
     THEN "__vw" ELSE e.callee

\* the return type that the code at path is under
TypeAt(path) ==
  LET fs == { i \in DOMAIN path : ev[path[i]].k \in {"fn", "closure"} }
  IN IF fs = {} THEN "" ELSE ev[path[CHOOSE i \in fs : \A k \in fs : k <= i]].rt

\* a value is hooked when it is a call of a listed name, or ends a function that returns a result,
\* unless it is a call of an ignored name
ValuesRight ==
  \A t \in DOMAIN tow :
    LET path == PathTo(tow[t].at - 1)
        j == Top(path)
        e == ev[j]
        c == CalleeOf(e, path, j, tow[t].at)
        is == tow[t].tower # <<>> /\ Top(tow[t].tower).kind # "q"
        said(s, default) == LET a == LastSaid(path, s, At("none")) IN IF a.s = "none" THEN default ELSE Range(a.v)
        rule == \/ c \in said("tails", {"Err"})
                \/ /\ e.r \in {"fn", "retval"}
                   /\ TypeAt(path) \in said("results", {"Result"})
                   /\ c \notin said("ignore", {"Ok"})
    IN /\ is = (e.r \in {"fn", "blk", "retval"} /\ (e.r # "retval" => ~e.ret) /\ rule)
       /\ (is => Top(tow[t].tower).kind = (IF e.r = "retval" THEN "ret" ELSE "tail"))

\* a program is rejected exactly when something bad is heard, or a variable is bound by nothing
BadRight ==
  Finished =>
  M.bad = ( \/ \E j \in DOMAIN ev : ev[j].e = "o" /\ \E i \in DOMAIN AtsOf(j) : AtsOf(j)[i].s = "bad"
                                     /\ AtsOf(j)[i] \in Range(HeardFlat(PathTo(j)))
            \/ \E t \in DOMAIN tow : \E k \in DOMAIN tow[t].tower : BadOwner(M, tow[t].tower[k]) )

Whole == Finished => TowersRight /\ ValuesRight /\ BadRight

\* everything opened is closed
Nested == Finished => Len(M.st) = 1 /\ Len(M.cnts) = 1
=============================================================================
