------------------------------- MODULE HooqRun -------------------------------
(***************************************************************************)
(* What annotated programs do when they run.                                *)
(*                                                                          *)
(* A small language with the control flow that `?', `return' and values of  *)
(* bodies take part in (functions, closures, async blocks, loops with       *)
(* labels, matches, let-else, lazy operators, macros that use an argument   *)
(* twice or not at all) and with the effects that could be disturbed        *)
(* (operations in order, temporaries and guards being dropped).             *)
(*                                                                          *)
(* The machine is a small-step evaluator with a stack of frames.  Hooking   *)
(* adds one thing to it: when the operand of a hooked target has become a   *)
(* value, the hook looks at that value, before the target acts on it.       *)
(* Whether a target is hooked is the documented rule (see Hooked).          *)
(*                                                                          *)
(* The same machine with mode "plain" is the program without the            *)
(* annotation; recorded runs of both are checked against it (HooqRunTrace), *)
(* and HooqRunMC lets every outcome happen and checks that hooks change     *)
(* nothing and come once per evaluation, the inner ones first.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Programs: [fns |-> << [k, rt, ps, b] >>, n |-> << node >>]; a node is
\* [k, c (children), i (a number), s (a text), h (line:col of a target), f (function around it)]

N(x) == [t |-> "n", v |-> x, y |-> "", ch |-> <<>>]
B(b) == [t |-> "b", v |-> IF b THEN 1 ELSE 0, y |-> "", ch |-> <<>>]
U == [t |-> "u", v |-> 0, y |-> "", ch |-> <<>>]
Ok(x) == [t |-> "ok", v |-> x, y |-> "", ch |-> <<>>]
Err(x, y) == [t |-> "err", v |-> x, y |-> y, ch |-> <<>>]
Some(x) == [t |-> "some", v |-> x, y |-> "", ch |-> <<>>]
None == [t |-> "none", v |-> 0, y |-> "", ch |-> <<>>]

Chained(mode) == mode \in {"anyhow", "eyre"}

ErrText(v) == v.y \o "(" \o ToString(v.v) \o ")"

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "; " \o Join(Tail(ss))

Show(v) ==
  CASE v.t = "ok" -> "Ok(" \o ToString(v.v) \o ")"
    [] v.t = "err" -> "Err(" \o Join(v.ch \o (IF v.y = "" THEN <<>> ELSE <<ErrText(v)>>)) \o ")"
    [] v.t = "some" -> "Some(" \o ToString(v.v) \o ")"
    [] v.t = "none" -> "None"
    [] OTHER -> "?"

-----------------------------------------------------------------------------
(* Hooks *)

\* `t' a target node; the function or closure around it in the text is t.f
Hooked(P, mode, t) ==
  /\ mode # "plain"
  /\ CASE t.s = "q" -> TRUE
       [] t.s = "blk" -> t.callee = "Err"
       [] OTHER -> t.callee = "Err" \/ (P.fns[t.f].rt /\ t.callee # "Ok")

\* what the method of each mode shows of a value at a place
Looks(mode, lv, t, v) ==
  CASE mode \in {"h", "hh"} -> << "hook " \o t.h \o " " \o Show(v) >>
    [] mode = "so" -> << "hook " \o t.h \o " " \o Show(v), "more " \o t.h \o " " \o Show(v) >>
    [] mode = "hook" -> << "meta " \o t.h \o " " \o Show(v) >>
    [] mode = "default" -> IF v.t = "err" THEN << "[main.rs:" \o t.h \o "] " \o ErrText(v) >> ELSE <<>>
    [] mode \in {"log", "tracing"} -> IF v.t = "err" THEN << "log " \o lv \o " (main.rs:" \o t.h \o ") " \o ErrText(v) >> ELSE <<>>
    [] OTHER -> <<>>

\* modes that add to an error make something of it
Adds(mode, t, v) ==
  IF ~Chained(mode) THEN v
  ELSE CASE v.t = "err" -> [v EXCEPT !.ch = << "[main.rs:" \o t.h \o "]" >> \o @]
         [] v.t = "none" -> [Err(0, "") EXCEPT !.ch = << "[main.rs:" \o t.h \o "]" >>]
         [] v.t = "some" -> Ok(v.v)
         [] OTHER -> v

\* `?' turns errors of operations into those of functions
Convert(mode, v) == IF v.t = "err" /\ v.y = "L" /\ ~Chained(mode) THEN [v EXCEPT !.v = @ + 100, !.y = "E"] ELSE v

-----------------------------------------------------------------------------
(* The machine. S: prog, mode, lv, ctl, k (frames, top last), env, out      *)
(* (what was shown in this step), cur (ghost: targets whose operands are    *)
(* being evaluated, outermost first).                                       *)

Ev(n) == [m |-> "e", n |-> n, v |-> U, x |-> "", l |-> ""]
Va(v) == [m |-> "v", n |-> 0, v |-> v, x |-> "", l |-> ""]
Ab(x, v, l) == [m |-> "x", n |-> 0, v |-> v, x |-> x, l |-> l]
Halt == [m |-> "end", n |-> 0, v |-> U, x |-> "", l |-> ""]

Fr(f, n, i) == [f |-> f, n |-> n, i |-> i, vs |-> <<>>, d |-> <<>>]

Top(S) == S.k[Len(S.k)]
Pop(S) == [S EXCEPT !.k = SubSeq(@, 1, Len(@) - 1)]
Push(S, fr) == [S EXCEPT !.k = Append(@, fr)]
SetTop(S, fr) == [S EXCEPT !.k = [@ EXCEPT ![Len(@)] = fr]]
Go(S, n) == [S EXCEPT !.ctl = Ev(n)]
\* evaluate with a scope of its own for temporaries
GoT(S, n) == Go(Push(S, Fr("ts", 0, 0)), n)
Give(S, v) == [S EXCEPT !.ctl = Va(v)]
Break(S, x, v, l) == [S EXCEPT !.ctl = Ab(x, v, l)]
Say(S, ss) == [S EXCEPT !.out = @ \o ss]

Drops(d) == [j \in 1 .. Len(d) |-> "drop " \o ToString(d[Len(d) + 1 - j])]

RECURSIVE Innermost(_, _, _)
Innermost(k, i, f) == IF k[i].f = f THEN i ELSE Innermost(k, i - 1, f)
Owe(S, f, i) == [S EXCEPT !.k[Innermost(S.k, Len(S.k), f)].d = Append(@, i)]

Bind(S, x, v) == [S EXCEPT !.env = (x :> v) @@ @]

RECURSIVE BindAll(_, _, _)
BindAll(S, xs, vs) == IF xs = <<>> THEN S ELSE BindAll(Bind(S, xs[1], vs[1]), Tail(xs), Tail(vs))

RECURSIVE Sum(_)
Sum(vs) == IF vs = <<>> THEN 0 ELSE vs[1].v + Sum(Tail(vs))

\* nodes that evaluate their children from left to right and then act
Strict == {"lit", "var", "val", "cnd", "op", "ope", "opo", "sum", "ok", "err", "some", "not", "odd", "call", "tmp", "grd",
           "let", "asg", "sexp", "unit", "brk", "none"}

\* a call to the function numbered i
Call(S, i, vs) ==
  LET fn == S.prog.fns[i]
      S1 == Push(BindAll(S, fn.ps, vs), Fr("fn", 0, i))
  IN GoT(S1, fn.b)

\* `b': whether an outcome turns to the bad side
Apply(S, nd, vs, b) ==
  CASE nd.k = "lit" -> Give(S, N(nd.i))
    [] nd.k = "unit" -> Give(S, U)
    [] nd.k = "none" -> Give(S, None)
    [] nd.k = "var" -> Give(S, S.env[nd.i])
    [] nd.k = "val" -> Give(Say(S, << "val " \o ToString(nd.i) >>), N(nd.i))
    [] nd.k = "cnd" -> Give(Say(S, << "cnd " \o ToString(nd.i) \o (IF b THEN " t" ELSE " f") >>), B(b))
    [] nd.k \in {"op", "ope", "opo"} ->
         Give(Say(S, << "op " \o ToString(nd.i) \o (IF b THEN " f" ELSE " t") >>),
              CASE nd.k = "opo" -> IF b THEN None ELSE Some(nd.i)
                [] ~b -> Ok(nd.i)
                [] OTHER -> Err(nd.i, IF nd.k = "op" THEN "E" ELSE "L"))
    [] nd.k = "sum" -> Give(S, N(Sum(vs)))
    [] nd.k = "ok" -> Give(S, Ok(vs[1].v))
    [] nd.k = "err" -> Give(S, Err(vs[1].v, "E"))
    [] nd.k = "some" -> Give(S, Some(vs[1].v))
    [] nd.k = "not" -> Give(S, B(vs[1].v = 0))
    [] nd.k = "odd" -> Give(S, B(vs[1].v % 2 = 1))
    [] nd.k = "call" -> Call(S, nd.i, vs)
    [] nd.k = "tmp" -> Give(Say(Owe(S, "ts", nd.i), << "new " \o ToString(nd.i) >>), U)
    [] nd.k = "grd" -> Give(Say(Owe(S, "blk", nd.i), << "new " \o ToString(nd.i) >>), U)
    [] nd.k = "let" -> Give(Bind(S, nd.i, vs[1]), U)
    [] nd.k = "asg" -> Give(Bind(S, nd.i, N(S.env[nd.i].v + vs[1].v)), U)
    [] nd.k = "sexp" -> Give(S, U)
    [] nd.k = "brk" -> Break(S, nd.x, IF vs = <<>> THEN U ELSE vs[1], nd.s)

Eval(S, b) ==
  LET nd == S.prog.n[S.ctl.n]
  IN CASE nd.k \in Strict ->
            IF nd.c = <<>> THEN Apply(S, nd, <<>>, b) ELSE Go(Push(S, Fr("args", S.ctl.n, 1)), nd.c[1])
       [] nd.k = "tgt" -> [Go(Push(S, Fr("tgt", S.ctl.n, 0)), nd.c[1]) EXCEPT !.cur = Append(@, S.ctl.n)]
       [] nd.k = "blk" -> GoT(Push(S, Fr("blk", S.ctl.n, 1)), nd.c[1])
       [] nd.k \in {"if", "while"} -> GoT(Push(S, Fr(nd.k, S.ctl.n, 0)), nd.c[1])
       [] nd.k \in {"and", "or"} -> Go(Push(S, Fr(nd.k, S.ctl.n, 0)), nd.c[1])
       [] nd.k = "mat" -> Go(Push(S, Fr("mat", S.ctl.n, 0)), nd.c[1])
       [] nd.k \in {"iflet", "whilelet", "letelse"} -> GoT(Push(S, Fr(nd.k, S.ctl.n, 0)), nd.c[1])
       [] nd.k = "twice" -> GoT(Push(S, Fr("twice", S.ctl.n, 0)), nd.c[1])
       [] nd.k = "for" -> IF nd.i = 0 THEN Give(S, U) ELSE Go(Push(S, Fr("for", S.ctl.n, 1)), nd.c[1])
       [] nd.k = "loop" -> Go(Push(S, Fr("loop", S.ctl.n, 0)), nd.c[1])
       [] nd.k = "asy" -> Go(Push(S, Fr("fn", S.ctl.n, 0)), nd.c[1])

\* a value arrives at the frame on top
Value(S, b) ==
  LET fr == Top(S)
      v == S.ctl.v
      nd == S.prog.n[fr.n]
      S1 == Pop(S)
  IN CASE fr.f = "args" ->
            LET vs == Append(fr.vs, v)
            IN IF fr.i < Len(nd.c) THEN Go(SetTop(S, [fr EXCEPT !.i = @ + 1, !.vs = vs]), nd.c[fr.i + 1])
               ELSE Apply(S1, nd, vs, b)
       [] fr.f = "ts" -> Say(S1, Drops(fr.d))
       [] fr.f = "blk" ->
            IF fr.i < Len(nd.c) THEN GoT(SetTop(S, [fr EXCEPT !.i = @ + 1]), nd.c[fr.i + 1])
            ELSE Say(S1, Drops(fr.d))
       [] fr.f = "tgt" ->
            LET hk == Hooked(S.prog, S.mode, nd)
                S2 == [S1 EXCEPT !.cur = SubSeq(@, 1, Len(@) - 1)]
                S3 == IF hk THEN Say(S2, Looks(S.mode, S.lv, nd, v)) ELSE S2
                w == IF hk THEN Adds(S.mode, nd, v) ELSE v
            IN CASE nd.s = "q" -> IF w.t \in {"ok", "some"} THEN Give(S3, N(w.v)) ELSE Break(S3, "ret", Convert(S.mode, w), "")
                 [] nd.s = "ret" -> Break(S3, "ret", w, "")
                 [] OTHER -> Give(S3, w)
       [] fr.f = "if" -> IF v.v = 1 THEN Go(S1, nd.c[2]) ELSE IF Len(nd.c) = 3 THEN Go(S1, nd.c[3]) ELSE Give(S1, U)
       [] fr.f = "while" ->
            IF fr.i = 0 THEN IF v.v = 1 THEN Go(SetTop(S, [fr EXCEPT !.i = 1]), nd.c[2]) ELSE Give(S1, U)
            ELSE GoT(SetTop(S, [fr EXCEPT !.i = 0]), nd.c[1])
       [] fr.f = "and" -> IF fr.i = 0 /\ v.v = 1 THEN GoT(SetTop(S, [fr EXCEPT !.i = 1]), nd.c[2]) ELSE Give(S1, v)
       [] fr.f = "or" -> IF fr.i = 0 /\ v.v = 0 THEN GoT(SetTop(S, [fr EXCEPT !.i = 1]), nd.c[2]) ELSE Give(S1, v)
       [] fr.f = "mat" ->
            IF v.t \in {"ok", "some"} THEN GoT(Bind(S1, nd.i, N(v.v)), nd.c[2]) ELSE GoT(S1, nd.c[3])
       [] fr.f = "iflet" ->
            IF v.t \in {"ok", "some"} THEN Go(Bind(S1, nd.i, N(v.v)), nd.c[2]) ELSE Go(S1, nd.c[3])
       [] fr.f = "letelse" -> IF v.t \in {"ok", "some"} THEN Give(Bind(S1, nd.i, N(v.v)), U) ELSE Go(S1, nd.c[2])
       [] fr.f = "whilelet" ->
            IF fr.i = 0
            THEN IF v.t \in {"ok", "some"} THEN Go(SetTop(Bind(S, nd.i, N(v.v)), [fr EXCEPT !.i = 1]), nd.c[2]) ELSE Give(S1, U)
            ELSE GoT(SetTop(S, [fr EXCEPT !.i = 0]), nd.c[1])
       [] fr.f = "twice" ->
            IF fr.i = 0 THEN GoT(SetTop(S, [fr EXCEPT !.i = 1, !.vs = <<v>>]), nd.c[1]) ELSE Give(S1, N(fr.vs[1].v + v.v))
       [] fr.f = "for" -> IF fr.i < nd.i THEN Go(SetTop(S, [fr EXCEPT !.i = @ + 1]), nd.c[1]) ELSE Give(S1, U)
       [] fr.f = "loop" -> Go(S, nd.c[1])
       [] fr.f = "fn" -> S1

\* leaving frames on the way out
Leave(S) ==
  LET fr == Top(S)
      a == S.ctl
      S1 == Pop(S)
      mine == a.l = "" \/ a.l = S.prog.n[fr.n].s
  IN CASE fr.f = "ts" -> Say(S1, Drops(fr.d))
       [] fr.f = "blk" -> LET S2 == Say(S1, Drops(fr.d)) IN IF a.x = "brk" /\ a.l # "" /\ mine THEN Give(S2, a.v) ELSE S2
       [] fr.f = "tgt" -> [S1 EXCEPT !.cur = SubSeq(@, 1, Len(@) - 1)]
       [] fr.f = "fn" -> IF a.x = "ret" THEN Give(S1, a.v) ELSE S1
       [] fr.f \in {"while", "for", "loop", "whilelet"} /\ a.x = "brk" /\ mine -> Give(S1, a.v)
       [] fr.f \in {"while", "for", "loop", "whilelet"} /\ a.x = "cont" /\ mine ->
            Give(SetTop(S, [fr EXCEPT !.i = IF fr.f = "for" THEN @ ELSE 1]), U)
       [] OTHER -> S1

Step(S0, b) ==
  LET S == [S0 EXCEPT !.out = <<>>]
  IN CASE S.ctl.m = "e" -> Eval(S, b)
       [] S.ctl.m = "v" -> IF S.k = <<>> THEN [Say(S, << "end " \o Show(S.ctl.v) >>) EXCEPT !.ctl = Halt] ELSE Value(S, b)
       [] S.ctl.m = "x" -> Leave(S)

Start(prog, mode, lv) ==
  Call([prog |-> prog, mode |-> mode, lv |-> lv, ctl |-> Halt, k |-> <<>>, env |-> (0 :> U), out |-> <<>>, cur |-> <<>>], 1, <<>>)
=============================================================================
