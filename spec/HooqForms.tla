----------------------------- MODULE HooqForms -----------------------------
(***************************************************************************)
(* What a user may write, and what hooq must say to it: every form within  *)
(* the bounds is generated here with the verdict it must get (and, for     *)
(* method templates, the tokens it must turn into). The forms are written  *)
(* to a file, rendered to Rust, and put to the real macro.                 *)
(***************************************************************************)
EXTENDS HooqSettings, SequencesExt, Json, IOUtils

CONSTANTS MaxLen, MaxInner

\* the flavors of the projects the forms stand in
Known == Flavors({"log"}, <<>>)

-----------------------------------------------------------------------------
(* Method templates: sequences of tokens, a group is [g |-> delimiter, in]. *)

Tokens == {"$", "fn_name", "count", "nope", "bnd", "so_far", "+", "7"}
Idents == {"fn_name", "count", "nope", "bnd", "so_far"}

T(t) == [g |-> "", t |-> t, in |-> <<>>]
G(d, s) == [g |-> d, t |-> "", in |-> s]

Flat == UNION { [1..n -> { T(t) : t \in Tokens }] : n \in 0..MaxLen }
Inner == UNION { [1..n -> { T(t) : t \in Tokens }] : n \in 0..MaxInner }
One == { <<>> } \cup { <<T(t)>> : t \in Tokens }

Nested ==
  { p \o <<G(d, s)>> : d \in {"(", "{", "["}, p \in One, s \in Inner }
  \cup { <<G("{", s)>> \o p : p \in One, s \in Inner }
  \cup { <<G("[", p \o <<G("(", s)>>)>> : p \in One, s \in Inner }

Templates == Flat \cup Nested

\* what `$name' stands for; <<>> where there is no such thing
Meaning(name, over) ==
  CASE name = "fn_name" -> <<"\"f\"">>
    [] name = "count" -> <<"\"1st ?\"">>
    [] name = "bnd" -> <<"41">>
    [] name = "so_far" /\ over -> <<"so_m", "(", "1", ")">>
    [] OTHER -> <<>>

Closing(d) == CASE d = "(" -> ")" [] d = "{" -> "}" [] d = "[" -> "]"

Fail == [ok |-> FALSE, out |-> <<>>]

\* `dollar' says that the last token was a `$' waiting for its name
RECURSIVE Expand(_, _, _, _)
Expand(seq, dollar, out, over) ==
  IF seq = <<>> THEN (IF dollar THEN Fail ELSE [ok |-> TRUE, out |-> out])
  ELSE
  LET x == seq[1] IN
  IF x.g # ""
  THEN LET in == Expand(x.in, FALSE, <<>>, over)
       IN IF dollar \/ ~in.ok THEN Fail
          ELSE Expand(Tail(seq), FALSE, out \o <<x.g>> \o in.out \o <<Closing(x.g)>>, over)
  ELSE IF dollar
  THEN IF x.t \in Idents /\ Meaning(x.t, over) # <<>>
       THEN Expand(Tail(seq), FALSE, out \o Meaning(x.t, over), over) ELSE Fail
  ELSE IF x.t = "$" THEN Expand(Tail(seq), TRUE, out, over)
  ELSE Expand(Tail(seq), FALSE, Append(out, x.t), over)

RECURSIVE TextOf(_)
TextOf(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET x == seq[1]
       IN (IF x.g = "" THEN <<x.t>> ELSE <<x.g>> \o TextOf(x.in) \o <<Closing(x.g)>>) \o TextOf(Tail(seq))

TemplateForms ==
  { LET r == Expand(s, FALSE, <<>>, over)
    IN [fam |-> "template", over |-> over, txt |-> TextOf(s), ok |-> r.ok, out |-> r.out]
    : s \in Templates, over \in BOOLEAN }

-----------------------------------------------------------------------------
(* Attributes: name, form (bare, list, name = value), argument. *)

\* lists: text, whether they are string literals only (and which), one bool, one `name = value'
Args ==
  { [txt |-> "", strs |-> TRUE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"Err\"", strs |-> TRUE, v |-> <<"Err">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"?\"", strs |-> TRUE, v |-> <<"?">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"question\", \"return\",", strs |-> TRUE, v |-> <<"question", "return">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "r\"tail_expr\", r#\"tail expr\"#, \"tailexpr\", \"tailExpr\", \"all\"", strs |-> TRUE,
     v |-> <<"tail_expr", "tail expr", "tailexpr", "tailExpr", "all">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"Return\"", strs |-> TRUE, v |-> <<"Return">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"?\", \"tail\"", strs |-> TRUE, v |-> <<"?", "tail">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"\"", strs |-> TRUE, v |-> <<"">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"all\", \" ?\"", strs |-> TRUE, v |-> <<"all", " ?">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"!Ok\", \"Err\"", strs |-> TRUE, v |-> <<"!Ok", "Err">>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "Err", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"Err\" \"Ok\"", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"Err\"; \"Ok\"", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"?\", 1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "b\"?\"", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> ",", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "true", strs |-> FALSE, v |-> <<>>, bool |-> TRUE, bind |-> FALSE],
    [txt |-> "false", strs |-> FALSE, v |-> <<>>, bool |-> TRUE, bind |-> FALSE],
    [txt |-> "true, false", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "!true", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "x = 1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> TRUE],
    [txt |-> "x = f(|y| y + 1, \"a\")", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> TRUE],
    [txt |-> "x::y = 1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "x = 1, y = 2", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "x = ", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "x == 1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE],
    [txt |-> "\"x\" = 1", strs |-> FALSE, v |-> <<>>, bool |-> FALSE, bind |-> FALSE] }

\* values: text, the flavor path they spell (<<>> if none)
Values ==
  { [txt |-> "log", p |-> <<"log">>], [txt |-> "log::warn", p |-> <<"log", "warn">>],
    [txt |-> "\"log\"", p |-> <<"log">>], [txt |-> "\"log.info\"", p |-> <<"log", "info">>],
    [txt |-> "\"log::info\"", p |-> <<"log", "info">>], [txt |-> "r#\"log.info\"#", p |-> <<"log", "info">>],
    [txt |-> "empty", p |-> <<"empty">>], [txt |-> "\"default\"", p |-> <<"default">>],
    [txt |-> "nope", p |-> <<"nope">>], [txt |-> "log::nope", p |-> <<"log", "nope">>],
    [txt |-> "warn", p |-> <<"warn">>], [txt |-> "log::warn::error", p |-> <<"log", "warn", "error">>],
    [txt |-> "log::log", p |-> <<"log", "log">>], [txt |-> "\"Log\"", p |-> <<"Log">>],
    [txt |-> "\"log.nope\"", p |-> <<"log", "nope">>], [txt |-> "\"log info\"", p |-> <<"log info">>],
    [txt |-> "\" log\"", p |-> <<" log">>], [txt |-> "\"log/info\"", p |-> <<"log/info">>],
    [txt |-> "\"log:info\"", p |-> <<"log:info">>],
    [txt |-> "\"\"", p |-> <<>>], [txt |-> "\"log.\"", p |-> <<>>], [txt |-> "\".log\"", p |-> <<>>],
    [txt |-> "\"log..info\"", p |-> <<>>], [txt |-> "\"log::.info\"", p |-> <<>>], [txt |-> "\"::log\"", p |-> <<>>],
    [txt |-> "log::<u8>", p |-> <<>>], [txt |-> "log::info::<u8>", p |-> <<>>], [txt |-> "1", p |-> <<>>],
    [txt |-> "true", p |-> <<"true">>], [txt |-> "log.info", p |-> <<>>], [txt |-> "[\"log\"]", p |-> <<>>],
    [txt |-> "b\"log\"", p |-> <<>>], [txt |-> "&log", p |-> <<>>], [txt |-> "(log)", p |-> <<>>],
    [txt |-> "<log>::warn", p |-> <<>>], [txt |-> "<x>::log", p |-> <<>>], [txt |-> "<x as y>::log", p |-> <<>>],
    [txt |-> "{ log }", p |-> <<>>], [txt |-> "log()", p |-> <<>>], [txt |-> "log!()", p |-> <<>>] }

Lists == {"hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"}
OfFlavor == {"flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"}
OwnWords == Lists \cup OfFlavor \cup {"binding", "var", "skip", "skip_all"}
Others == {"mine", "skipp", "Method", "hook_target", "so_far"}

BareOk(name) == name \in {"skip", "skip_all"}

ListOk(name, a) ==
  CASE name = "hook_targets" -> a.strs /\ \A i \in DOMAIN a.v : KnownTargetWord(a.v[i])
    [] name \in Lists -> a.strs
    [] name = "hook_in_macros" -> a.bool
    [] name \in {"binding", "var"} -> a.bind
    [] OTHER -> FALSE

ValueOk(name, v) ==
  CASE name \in OfFlavor -> v.p # <<>> /\ HasFlavor(Known, v.p)
    [] name = "ignore_tail_expr_idents" -> FALSE
    [] OTHER -> TRUE  \* a binding

Attr(name, form, txt, ok) == [fam |-> "attr", name |-> name, form |-> form, txt |-> txt, ok |-> ok]

\* a word of hooq's own with a value it does not take (skip = ..) is left open
AttrForms ==
  { Attr("hooq::" \o n, "bare", "", BareOk(n)) : n \in OwnWords \cup Others }
  \cup { Attr("hooq::" \o n, "list", a.txt, ListOk(n, a)) : n \in (OwnWords \cup Others) \ {"method"}, a \in Args }
  \cup { Attr("hooq::" \o n, "value", v.txt, ValueOk(n, v)) : n \in OfFlavor \cup Others \cup {"ignore_tail_expr_idents"},
                                                             v \in Values }
  \cup { Attr("hooq::x::" \o n, "bare", "", FALSE) : n \in {"skip", "y"} }
  \cup { Attr("hooq::x::" \o n, "list", "1", FALSE) : n \in {"binding", "y"} }
  \cup { Attr("hooq::x::" \o n, "value", "1", FALSE) : n \in {"flavor", "y"} }
  \cup { Attr("::hooq::" \o n, "bare", "", FALSE) : n \in OwnWords \cup Others }
  \cup { Attr("::hooq::" \o n, "list", a.txt, FALSE) : n \in (OwnWords \cup Others) \ {"method"}, a \in { b \in Args : b.strs \/ b.bool \/ b.bind } }
  \cup { Attr("::hooq::" \o n, "value", v.txt, FALSE) : n \in OwnWords \cup Others, v \in { w \in Values : w.p = <<"log">> \/ w.txt = "1" } }
  \cup { Attr(n, "bare", "", TRUE) : n \in {"cold", "other::skip", "rustfmt::skip", "skip"} }
  \cup { Attr(n, "list", "x", TRUE) : n \in {"allow", "other::method"} }
  \cup { Attr(n, "value", "\"x\"", TRUE) : n \in {"doc", "other::flavor"} }

-----------------------------------------------------------------------------
(* Arguments of the root attribute. *)

Metas ==
  { [txt |-> v.txt, fl |-> v.p, ok |-> HasFlavor(Known, v.p)] :
    v \in { w \in Values : w.p # <<>> /\ w.txt \in {"log", "log::warn", "empty", "nope", "log::nope", "warn",
                                                    "log::warn::error", "log::log"} } }
  \cup { [txt |-> "flavor = " \o v.txt, fl |-> v.p, ok |-> v.p # <<>> /\ HasFlavor(Known, v.p)]
         : v \in { w \in Values : w.txt \notin {"log", "log::warn", "empty", "nope", "log::nope", "warn", "log::warn::error",
                                               "log::log"} } }
  \cup { [txt |-> t, fl |-> <<"x">>, ok |-> FALSE] : t \in {"flavor = log", "flavor(log)", "flavor", "flavors = \"log\"",
           "Flavor = \"log\"", "\"log\"", "1", "log::<u8>", "log = \"x\"", "!log", "log.info", "x::flavor = \"log\""} }
  \cup { [txt |-> t, fl |-> <<>>, ok |-> FALSE] : t \in {"trait_use(\"A\")", "trait_use(A B)", "trait_use = A", "trait_used(A)",
           "use(A)", "trait_use(A;)", "trait_use(1)", "trait_use(,)", "x::trait_use(A)", "method(.m())", "skip()",
           "hook_targets(\"?\")", "bindings = 1", "trait_use::x(A)"} }
  \cup { [txt |-> t, fl |-> <<>>, ok |-> TRUE] : t \in {"trait_use()", "trait_use(A)", "trait_uses(a::A, ::b::B,)",
           "trait_use[A]", "trait_uses{A, B}"} }

\* more than one flavor is left open
MetaSeqs ==
  { <<>> } \cup { <<m>> : m \in Metas }
  \cup { <<m, n>> : m \in { x \in Metas : x.fl = <<>> }, n \in Metas }
  \cup { <<m, n>> : m \in Metas, n \in { x \in Metas : x.fl = <<>> } }

RootForms ==
  { [fam |-> "root", txt |-> [i \in DOMAIN s |-> s[i].txt], sep |-> ", ", ok |-> \A i \in DOMAIN s : s[i].ok] : s \in MetaSeqs }
  \cup { [fam |-> "root", txt |-> <<"log", "trait_use(A)">>, sep |-> sep, ok |-> FALSE] : sep \in {" ", "; ", ",, ", "::"} }

-----------------------------------------------------------------------------
(* hooq.toml: one line in a table; or a whole file. *)

Lines ==
  { [txt |-> t, ok |-> TRUE] : t \in {"", "method = \".m()\"", "method = 'f($expr)'", "hook_targets = []",
      "hook_targets = [\"?\", \"question\", \"return\", \"tail_expr\", \"tail expr\", \"tailexpr\", \"tailExpr\", \"all\"]",
      "tail_expr_idents = [\"!Ok\", \"\"]", "ignore_tail_expr_idents = []", "result_types = [\"R\"]", "hook_in_macros = false",
      "trait_uses = [\"a::B\", \"::c::D\"]", "bindings = {}", "bindings = { x = '\"s\"', y = \"|a| a\" }", "sub = {}",
      "x.hook_in_macros = true", "bindings.z = \"1\"", "# method = 1"} }
  \cup { [txt |-> t, ok |-> FALSE] : t \in {"method = 1", "method = \".m(\"", "method = \"'\"", "method = [\".m()\"]",
      "hook_targets = \"?\"", "hook_targets = [\"Return\"]", "hook_targets = [\"?\", \"\"]", "hook_targets = [1]",
      "hook_targets = true", "tail_expr_idents = \"Err\"", "tail_expr_idents = [1]", "ignore_tail_expr_idents = 1",
      "ignore_tail_expr_idents = [[\"Ok\"]]", "result_types = \"R\"", "result_types = [true]", "hook_in_macros = \"true\"",
      "hook_in_macros = 1", "trait_uses = \"A\"", "trait_uses = [\"A B\"]", "trait_uses = [\"\"]", "trait_uses = [\"1\"]",
      "bindings = 1", "bindings = { x = 1 }", "bindings = { x = \"\" }", "bindings = { x = \"1 +\" }", "bindings = [\"x\"]",
      "bindings = { x = \"a b\" }", "nope = 1", "flavor = \"log\"", "methods = \".m()\"", "sub = 1", "hook_target = [\"?\"]",
      "sub = [{}]", "method", "= 1", "empty = {}", "empty.x = {}", "\"\" = {}", "x.empty = {}", "x.hook_targets = [\"x\"]",
      "x.y.method = 1", "trait_use = [\"A\"]"} }

Tables == {"t", "default", "log", "log.error", "log.new", "t.u", "t.u.v", "hook.x", "anyhow"}

TomlForms ==
  { [fam |-> "toml", table |-> t, txt |-> l.txt, ok |-> l.ok] : t \in Tables, l \in Lines }
  \cup { [fam |-> "toml", table |-> "", txt |-> l, ok |-> TRUE] : l \in {"", "# nothing", "[a]", "[a.b.c]\n[a]", "a = {}", "a.b.c = {}"} }
  \cup { [fam |-> "toml", table |-> "", txt |-> l, ok |-> FALSE] : l \in {"a", "[a", "[a]\n[a]", "method = \".m()\"", "[[a]]",
         "hook_in_macros = true", "[empty]", "[empty.x]", "[a.empty]", "[\"\"]", "[a.\"\"]", "empty = {}", "[log]\nempty = {}",
         "a = 1", "[a]\nhook_in_macros = true\nhook_in_macros = false", "[a.b]\n[a]\nb = 1"} }

-----------------------------------------------------------------------------
Forms == TemplateForms \cup AttrForms \cup RootForms \cup TomlForms

ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Forms))

VARIABLE form

Init == form \in Forms
Next == UNCHANGED form
Spec == Init /\ [][Next]_form

\* without a `$' a template is taken as it is, and every `$' of an accepted one is used up
TemplatesSound ==
  form.fam = "template" =>
    /\ ("$" \notin Range(form.txt) => form.ok /\ form.out = form.txt)
    /\ (form.ok => "$" \notin Range(form.out))

\* the empty flavor is known, and nothing lies below it
EmptyKnown == HasFlavor(Known, <<"empty">>) /\ \A n \in {"x", "empty", "log"} : ~HasFlavor(Known, <<"empty", n>>)
=============================================================================
