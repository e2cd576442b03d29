----------------------------- MODULE HooqExcerpt -----------------------------
(***************************************************************************)
(* How hooq's helper macros show a piece of source: laid out as in the     *)
(* file, on one line, as an excerpt, with long strings shortened.          *)
(*                                                                         *)
(* An expression is the sequence of its tokens with their places in the    *)
(* file: [t |-> text, l, c |-> line and column, el, ec |-> line and column *)
(* of its end, fold |-> whether it is a string literal that may be         *)
(* shortened, value |-> its value]. Lines count from 1, columns from 0.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NL == "\n"

RECURSIVE Blanks(_), Repeat(_, _), Join(_, _), Digits(_)
Blanks(n) == IF n <= 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Blanks(n \div 2) IN h \o h ELSE " " \o Blanks(n - 1)
Repeat(x, n) == IF n <= 0 THEN <<>> ELSE Append(Repeat(x, n - 1), x)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)

Ch(s, i) == SubSeq(s, i, i)
Max(a, b) == IF a > b THEN a ELSE b
LastOf(s) == s[Len(s)]

\* the pieces of a text between its line feeds
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Ch(s, i) = NL THEN <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, i + 1, i + 1)
  ELSE SplitFrom(s, from, i + 1)
Split(s) == SplitFrom(s, 1, 1)

White == {" ", "\t", "\r"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in White THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

-----------------------------------------------------------------------------
(* Options, as written: [n |-> name, k |-> "none", "int" or "str", i, s]. *)

PadWords == {"top", "bottom", "both"}

OptOk(o) ==
  CASE o.n = "excerpt_line" -> o.k = "int"
    [] o.n = "truncate_str" -> o.k \in {"none", "int"}
    [] o.n = "show_line_num" -> TRUE
    [] o.n = "padding" -> o.k = "none" \/ (o.k = "str" /\ o.s \in PadWords)
    [] OTHER -> FALSE

\* the last of several wins
RECURSIVE Settings(_, _)
Settings(set, opts) ==
  IF opts = <<>> THEN set
  ELSE LET o == opts[1] IN
  Settings(
    CASE o.n = "excerpt_line" -> [set EXCEPT !.lines = o.i]
      [] o.n = "truncate_str" -> [set EXCEPT !.trunc = IF o.k = "none" THEN 10 ELSE o.i]
      [] o.n = "show_line_num" -> [set EXCEPT !.nums = TRUE]
      [] o.n = "padding" -> [set EXCEPT !.pad = IF o.k = "none" THEN "both" ELSE o.s]
      [] OTHER -> set,
    Tail(opts))

\* -1: strings are left alone
Unset == [lines |-> 5, trunc |-> -1, nums |-> FALSE, pad |-> "none"]

-----------------------------------------------------------------------------
(* String literals. *)

\* a beginning and an end that fill the limit together with the mark
ShortLine(s, max) ==
  IF Len(s) <= max THEN s
  ELSE IF max < 2 THEN ".."
  ELSE LET a == (max - 2) \div 2
           b == (max - 2) - a
       IN SubSeq(s, 1, a) \o ".." \o SubSeq(s, Len(s) - b + 1, Len(s))

Shorten(s, max) == LET ls == Split(s) IN Join([i \in DOMAIN ls |-> ShortLine(ls[i], max)], NL)

Escape(c) ==
  CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = NL -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] OTHER -> c

RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) == IF i > Len(s) THEN "" ELSE Escape(Ch(s, i)) \o EscapeFrom(s, i + 1)

Shown(tok, max) == IF tok.fold /\ max >= 0 THEN "\"" \o EscapeFrom(Shorten(tok.value, max), 1) \o "\"" ELSE tok.t

-----------------------------------------------------------------------------
(* Layout. `at' is the place in the file the text has come to: a token on   *)
(* a later line starts a new one at its own column, a token further right   *)
(* on the same line keeps its distance.                                     *)

RECURSIVE Lay(_, _, _, _)
Lay(toks, max, lines, at) ==
  IF toks = <<>> THEN lines
  ELSE
  LET tok == toks[1]
      shown == Split(Shown(tok, max))
      first == lines = <<>>
      new == ~first /\ tok.l > at.l
      base == IF first THEN <<"    ">>
              ELSE IF new THEN lines \o Repeat("", tok.l - at.l - 1) \o <<Blanks(tok.c)>>
              ELSE [lines EXCEPT ![Len(lines)] = @ \o Blanks(tok.c - at.c)]
      here == [base EXCEPT ![Len(base)] = @ \o shown[1]] \o Tail(shown)
  IN Lay(Tail(toks), max, here, [l |-> tok.l + Len(shown) - 1, c |-> tok.ec])

Body(toks, max) == Lay(toks, max, <<>>, [l |-> 0, c |-> 0])

\* what str::lines yields: no empty line at the end
LinesOf(body) == IF LastOf(body) = "" THEN SubSeq(body, 1, Len(body) - 1) ELSE body

Label(n, width, mark) == Blanks(width - Digits(n)) \o ToString(n) \o mark

Labelled(lines, start, width) ==
  [i \in DOMAIN lines |-> Label(start + i - 1, width, IF i = 1 THEN ">" ELSE "|") \o lines[i]]

\* the width of the labels: that of the first line's number, or of the last's where it takes more
Widths(toks) == { Max(4, Digits(toks[1].l)), Max(4, Digits(LastOf(toks).el)) }

Padded(text, set, width) ==
  LET blank == IF set.nums THEN Blanks(width) \o "|" ELSE ""
  IN (IF set.pad \in {"top", "both"} THEN blank \o NL ELSE "")
     \o text
     \o (IF set.pad \in {"bottom", "both"} THEN NL \o blank ELSE "")

Excerpted(lines, n) ==
  IF n = 1 THEN <<LastOf(lines)>>
  ELSE IF Len(lines) <= Max(n, 2) THEN lines
  ELSE <<lines[1], "...">> \o SubSeq(lines, Len(lines) - n + 2, Len(lines))

Pretty(toks, set, width) ==
  LET body == LinesOf(Body(toks, set.trunc)) IN IF set.nums THEN Labelled(body, toks[1].l, width) ELSE body

Texts(r) ==
  LET toks == r.toks IN
  CASE r.mac = "pretty_stringify" ->
         LET set == [Settings(Unset, r.o) EXCEPT !.trunc = -1]
         IN { Padded(Join(Pretty(toks, set, w), NL), set, w) : w \in Widths(toks) }
    [] r.mac = "one_line_stringify" ->
         LET set == Settings(Unset, r.o)
             ls == LinesOf(Body(toks, set.trunc))
         IN { Join([i \in DOMAIN ls |-> Trim(ls[i])], " ") }
    [] r.mac \in {"excerpted_pretty_stringify", "summary"} ->
         LET given == Settings([Unset EXCEPT !.trunc = 10, !.nums = TRUE, !.pad = "bottom"], r.o)
             \* the bottom is padded whatever is asked for
             set == [given EXCEPT !.pad = IF @ = "top" THEN "both" ELSE @]
         IN { Padded(Join(Excerpted(Pretty(toks, set, w), set.lines), NL), set, w) : w \in Widths(toks) }
    [] r.mac = "truncate_lit_str" ->
         LET set == Settings([Unset EXCEPT !.trunc = 10], r.o)
             lits == SelectSeq(toks, LAMBDA t : t.fold)
         IN { Join([i \in DOMAIN lits |-> EscapeFrom(Shorten(lits[i].value, set.trunc), 1)], "|") }

Accepted(r) ==
  /\ \A i \in DOMAIN r.o : OptOk(r.o[i])
  /\ r.mac \in {"excerpted_pretty_stringify", "summary"} => Settings(Unset, r.o).lines >= 1

-----------------------------------------------------------------------------
(* The same, said without building it: where the characters of an          *)
(* unlabelled, unshortened text are.                                       *)

RECURSIVE NonBlank(_, _)
NonBlank(s, i) == IF i > Len(s) THEN 0 ELSE NonBlank(s, i + 1) + (IF Ch(s, i) = " " THEN 0 ELSE 1)
RECURSIVE SumNonBlank(_)
SumNonBlank(ss) == IF ss = <<>> THEN 0 ELSE NonBlank(ss[1], 1) + SumNonBlank(Tail(ss))

Faithful(toks, lines) ==
  LET start == toks[1]
      shift(row) == IF row = 1 THEN 4 - start.c ELSE 0
      flat == [i \in DOMAIN toks |-> toks[i].t]
  IN
  /\ Len(lines) = LastOf(toks).el - start.l + 1
  /\ \A i \in DOMAIN toks :
       LET tok == toks[i]
           parts == Split(tok.t)
       IN \A k \in DOMAIN parts :
            LET row == tok.l - start.l + k
                off == IF k = 1 THEN tok.c + shift(row) ELSE 0
            IN row \in DOMAIN lines /\ off + Len(parts[k]) <= Len(lines[row]) /\ SubSeq(lines[row], off + 1, off + Len(parts[k])) = parts[k]
  /\ SumNonBlank(lines) = SumNonBlank([i \in DOMAIN toks |-> Join(Split(toks[i].t), "")])

\* no string is longer than before, and none that fits is touched
ShortenSound(toks, max) ==
  max >= 0 =>
  \A i \in DOMAIN toks : toks[i].fold =>
    LET a == Split(toks[i].value) b == Split(Shorten(toks[i].value, max))
    IN /\ Len(a) = Len(b)
       /\ \A k \in DOMAIN a :
            /\ (Len(a[k]) <= max => b[k] = a[k])
            /\ (Len(a[k]) > max => Len(b[k]) = Max(max, 2))

-----------------------------------------------------------------------------
Records == IF IOEnv.TRACES = "" THEN <<>> ELSE ndJsonDeserialize(IOEnv.TRACES)

VARIABLE i

Init == i \in DOMAIN Records
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Report(what) == PrintT("VIOL " \o ToJson([id |-> Records[i].id, what |-> what]))

Agrees ==
  LET r == Records[i] IN
  IF r.ok # Accepted(r) THEN Report(IF r.ok THEN "accepted, must be rejected" ELSE "rejected, must be accepted")
  ELSE r.ok =>
    /\ LET ts == Texts(r)
       IN r.got \in ts \/ Report([must |-> CHOOSE t \in ts : TRUE])
    /\ ((r.mac = "pretty_stringify" /\ r.o = <<>>) => (Faithful(r.toks, Split(r.got)) \/ Report("not where it is in the file")))

Sound == LET r == Records[i] IN ShortenSound(r.toks, Settings([Unset EXCEPT !.trunc = 10], r.o).trunc)
=============================================================================
