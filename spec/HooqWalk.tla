------------------------------ MODULE HooqWalk ------------------------------
(***************************************************************************)
(* What hooq does to an annotated item, as a machine that reads the item's *)
(* structure as a stream of events, outermost first, in source order:      *)
(*                                                                         *)
(*   fn, closure   a function or closure (name, signature, return type)    *)
(*   scope         a block, the arms of a match, an else branch            *)
(*   node          any other node that carries attributes                  *)
(*   macro         a macro call with its arguments                         *)
(*   slot          an expression in a role: "fn" (tail of a function or     *)
(*                 closure body), "blk" (tail of another block or arm),    *)
(*                 "retval" (value of a return), "x" (any other); its      *)
(*                 close carries what was observed in the expansion        *)
(*   q, ret        a `?' (around what it is applied to), a `return'        *)
(*                                                                         *)
(* Every event opens ("o") or closes ("c") a node. The machine keeps a     *)
(* stack of frames with the settings in force, and the counters of the     *)
(* functions it is in. At the close of a slot it knows the tower that the  *)
(* expansion must show there: the innermost operand with, from the inside  *)
(* out, the layers of each target's method and the `?' that stay.          *)
(***************************************************************************)
EXTENDS HooqSettings

Unknown == "<unknown>"
NoFn == [known |-> FALSE, name |-> Unknown, sig |-> Unknown, rt |-> "", base |-> Unknown]

Zero == [q |-> 0, ret |-> 0, tail |-> 0]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

\* `bad' says that something was met that hooq must report as an error
Initial(flavors, rootpath, file, bad) ==
  [bad |-> bad \/ ~HasFlavor(flavors, rootpath),
   st |-> << [k |-> "root", fn |-> NoFn,
              ctx |-> Context(IF HasFlavor(flavors, rootpath) THEN FlavorAt(flavors, rootpath) ELSE DefaultFlavor),
              off |-> FALSE, role |-> "", tower |-> <<>>, ev |-> <<>>] >>,
   cnts |-> << Zero >>, offattrs |-> 0, file |-> file, flavors |-> flavors,
   bang |-> TRUE]  \* the feature consume-question

-----------------------------------------------------------------------------
(* Targets *)

Suffix(n) ==
  IF n % 100 \in 11..13 THEN "th"
  ELSE CASE n % 10 = 1 -> "st" [] n % 10 = 2 -> "nd" [] n % 10 = 3 -> "rd" [] OTHER -> "th"

KindText(k) == CASE k = "q" -> "?" [] k = "ret" -> "return" [] k = "tail" -> "tail expr"

CountText(n, k) == ToString(n) \o Suffix(n) \o " " \o KindText(k)

\* code of the method's own, which is never hooked
Fixed == [k_q |-> "g ( ) ?", k_r |-> "{ return Err ( 1 ) }", k_t |-> "| | Err ( h ? )"]

\* "*" stands for the text of the hooked operand, which only the expansion shows
FieldText(label, t) ==
  CASE label = "line" -> ToString(t.line)
    [] label \in {"col", "column"} -> ToString(t.col)
    [] label = "path" -> t.file.path
    [] label = "file" -> t.file.name
    [] label \in {"count", "nth"} -> CountText(t.n, t.kind)
    [] label \in {"fn_name", "fnname"} -> t.fn.name
    [] label \in {"fn_sig", "fnsig"} -> t.fn.sig
    [] label = "source" -> t.src
    [] label = "expr" -> "*"
    [] label \in DOMAIN Fixed -> Fixed[label]
    [] label \in DOMAIN t.ctx.bind -> t.ctx.bind[label]
    [] OTHER -> "?unbound"

Layer(el, mode, t) ==
  [y |-> mode, tag |-> el.tag, kind |-> t.kind,
   f |-> [l \in Range(el.f) |-> FieldText(l, t)]]

\* the layers that the i-th method of the stack puts on an operand
RECURSIVE LayersOf(_, _, _)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
LayersOf(meth, i, t) ==
  IF i = 0 THEN << [y |-> "none", tag |-> "no method so far", kind |-> t.kind, f |-> EmptyFun] >>
  ELSE
  LET tm == meth[i]
      el(e) == IF e.so THEN LayersOf(meth, i - 1, t) ELSE << Layer(e, tm.m, t) >>
      own == Concat([j \in DOMAIN tm.seq |-> el(tm.seq[j])])
  IN IF tm.m = "r" /\ tm.body \in {"so", "expr.so"} THEN LayersOf(meth, i - 1, t) \o own ELSE own

Method(ctx) == Top(ctx.meth)

Layers(t) == LayersOf(t.ctx.meth, Len(t.ctx.meth), t)

Active(fr) == ~fr.off /\ fr.ctx.skip = "no"

Hooked(fr, kind) == Active(fr) /\ kind \in fr.ctx.targets

\* with the `!' mark the `?' goes
Consumes(fr) == Hooked(fr, "q") /\ Method(fr.ctx).exc

\* The rule for values: `value' is the outermost expression's situation.
ReturnsResult(fr) == fr.fn.known /\ fr.fn.rt \in Range(fr.ctx.results)

\* A value that is a call counts by the last name of the called path. If its
\* own `?' went and the method replaced the operand, it now is a call to the
\* method's path.
Callee(ev, last) ==
  IF ev.top /\ last.consumed /\ last.mode = "r" /\ last.layers # <<>> THEN "__vw" ELSE ev.callee

IsValueTarget(fr, callee, fnlike) ==
  \/ callee # "" /\ callee \in Range(fr.ctx.tails)
  \/ /\ fnlike
     /\ ReturnsResult(fr)
     /\ ~(callee # "" /\ callee \in Range(fr.ctx.ignore))

-----------------------------------------------------------------------------
(* Steps. A tower is a sequence of owners [kind, consumed, mode, layers].  *)

Push(S, fr) == [S EXCEPT !.st = Append(@, fr)]

SetTop(S, fr) == [S EXCEPT !.st = Append(Pop(S.st), fr)]

\* a target of `kind' is met at frame fr: count it and say what it gets
CountUp(S, fr, kind) ==
  IF Active(fr) THEN [S EXCEPT !.cnts[Len(S.cnts)][kind] = @ + 1] ELSE S

Target(S, fr, kind, pos) ==
  [kind |-> kind, line |-> pos.line, col |-> pos.col, src |-> pos.src, ctx |-> fr.ctx, fn |-> fr.fn,
   n |-> S.cnts[Len(S.cnts)][kind], file |-> S.file]

\* without the feature a `!' is a token of the method like any other (and no expression ends in one)
RECURSIVE Banged(_, _)
Banged(meth, i) ==
  /\ i > 0
  /\ \/ meth[i].exc
     \/ /\ (meth[i].body \in {"so", "expr.so"} \/ \E j \in DOMAIN meth[i].seq : meth[i].seq[j].so)
        /\ Banged(meth, i - 1)

\* a method that asks for what there is not
BadOwner(S, ow) ==
  \/ ~S.bang /\ ow.banged
  \/ \E i \in DOMAIN ow.layers : LET l == ow.layers[i] IN l.y = "none" \/ "?unbound" \in { l.f[x] : x \in DOMAIN l.f }

Owner(S, fr, kind, pos) ==
  \* S has the target counted already
  [kind |-> kind,
   consumed |-> kind = "q" /\ Consumes(fr) /\ S.bang,
   banged |-> Hooked(fr, kind) /\ Banged(fr.ctx.meth, Len(fr.ctx.meth)),
   mode |-> Method(fr.ctx).m,
   layers |-> IF Hooked(fr, kind) THEN Layers(Target(S, fr, kind, pos)) ELSE <<>>]

NoOwner == [kind |-> "none", consumed |-> FALSE, banged |-> FALSE, mode |-> "", layers |-> <<>>]

\* index of the slot the `?' at the top of the stack belongs to
RECURSIVE SlotBelow(_, _)
SlotBelow(st, i) == IF st[i].k = "slot" THEN i ELSE SlotBelow(st, i - 1)

AtOf(ev) == IF ev.k = "scope" THEN <<>> ELSE ev.at

OpenFrame(S, ev) ==
  LET p == Top(S.st)
      at == IF p.off THEN <<>> ELSE AtOf(ev)
      ctx == Enter(p.ctx, at, S.flavors)
      fr == [p EXCEPT !.k = ev.k, !.ctx = ctx, !.role = "", !.tower = <<>>]
  IN
  CASE ev.k = "scope" -> [fr EXCEPT !.ctx = SubScope(p.ctx)]
    [] ev.k = "fn" -> [fr EXCEPT !.fn = [known |-> TRUE, name |-> ev.name, sig |-> ev.sig, rt |-> ev.rt,
                                         base |-> ev.name]]
    [] ev.k = "closure" ->
         [fr EXCEPT !.fn = [known |-> TRUE, name |-> "__closure_in_" \o p.fn.base \o "__",
                            sig |-> ev.sig, rt |-> ev.rt, base |-> p.fn.base]]
    [] ev.k = "macro" -> [fr EXCEPT !.off = p.off \/ ~ctx.macros]
    [] ev.k = "slot" -> [fr EXCEPT !.role = ev.r]
    [] OTHER -> fr

Open(S, ev) ==
  LET S1 == IF Top(S.st).off THEN [S EXCEPT !.offattrs = @ + Len(AtOf(ev))]
            ELSE [S EXCEPT !.bad = @ \/ \E i \in DOMAIN AtOf(ev) : BadAttr(AtOf(ev)[i], S.flavors)]
      S2 == Push(S1, [OpenFrame(S1, ev) EXCEPT !.ev = ev])
  IN IF ev.k = "fn" THEN [S2 EXCEPT !.cnts = Append(@, Zero)] ELSE S2

\* close of a `?': its owner joins the tower of its slot
CloseQ(S) ==
  LET fr == Top(S.st)
      S1 == CountUp(S, fr, "q")
      ow == Owner(S1, fr, "q", fr.ev)
      i == SlotBelow(S.st, Len(S.st) - 1)
      S2 == [S1 EXCEPT !.st = Pop(@)]
  IN [S2 EXCEPT !.st[i].tower = Append(@, ow), !.bad = @ \/ BadOwner(S, ow)]

LastOf(tower) == IF tower = <<>> THEN NoOwner ELSE Top(tower)

\* the owner added by the slot itself, if it is a value target
ValueKind(S) ==
  LET fr == Top(S.st)
      callee == Callee(fr.ev, LastOf(fr.tower))
  IN CASE fr.ev.ver -> "none"
       [] fr.role \in {"fn", "blk"} ->
            IF ~fr.ev.ret /\ IsValueTarget(fr, callee, fr.role = "fn") THEN "tail" ELSE "none"
       [] fr.role = "retval" -> IF IsValueTarget(fr, callee, TRUE) THEN "ret" ELSE "none"
       [] OTHER -> "none"

\* where a value target is
ValuePos(S) ==
  LET fr == Top(S.st)
  IN IF fr.role = "retval" THEN S.st[Len(S.st) - 1].ev ELSE fr.ev

\* the slot at the top with its tower completed
FinishSlot(S) ==
  LET fr == Top(S.st)
      k == ValueKind(S)
      S1 == IF k = "none" THEN S ELSE CountUp(S, fr, k)
      ow == Owner(S1, fr, k, ValuePos(S))
  IN IF k = "none" THEN S ELSE [S1 EXCEPT !.st[Len(S1.st)].tower = Append(@, ow), !.bad = @ \/ BadOwner(S, ow)]

Close(S, ev) ==
  CASE ev.k = "q" -> CloseQ(S)
    [] ev.k = "slot" -> [FinishSlot(S) EXCEPT !.st = Pop(@)]
    [] ev.k = "fn" -> [S EXCEPT !.st = Pop(@), !.cnts = Pop(@)]
    [] OTHER -> [S EXCEPT !.st = Pop(@)]

Step(S, ev) == IF ev.e = "o" THEN Open(S, ev) ELSE Close(S, ev)

-----------------------------------------------------------------------------
(* The tower as a sequence of symbols, as it can be read off the expansion *)

RECURSIVE Symbols(_, _)
Symbols(tower, acc) ==
  IF tower = <<>> THEN acc
  ELSE
  LET o == tower[1]
      from == Len(acc) + 1
      ls == [j \in DOMAIN o.layers |-> o.layers[j] @@ [from |-> from]]
      mark == IF o.kind = "q" /\ ~o.consumed
              THEN << [y |-> "?", tag |-> "", kind |-> "", f |-> EmptyFun, from |-> from] >> ELSE <<>>
  IN Symbols(Tail(tower), acc \o ls \o mark)

Expected(tower) == Symbols(tower, <<>>)

Shape(syms) == [i \in DOMAIN syms |-> <<syms[i].y, syms[i].tag>>]

RECURSIVE OfKind(_, _)
OfKind(syms, ks) ==
  IF syms = <<>> THEN <<>>
  ELSE (IF syms[1].kind \in ks THEN << <<syms[1].y, syms[1].tag>> >> ELSE <<>>) \o OfKind(Tail(syms), ks)
=============================================================================
