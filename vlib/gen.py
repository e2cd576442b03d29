"""Random annotated items. Nothing has to type-check: the expansion is what is
observed. Optional white space is written as `~` and laid out at the end."""
import random

SP = "\x01"  # optional white space
MO, MC = "\x02", "\x03"  # around what may become a fragment of a macro; MO is followed by its kind

CALLEES = ["Ok", "Err", "Bad", "Fine", "mk", "run", "a::Err", "x::y::Ok", "Some", "None2", "Err2", "Err", "Ok", "Bad", "Fine",
           "std::result::Result::Err", "::core::result::Result::Ok", "a::b::c::d::Bad", "<T as Tr>::Err", "<T>::Ok", "Result::<u8, E>::Err", "Self::Ok", "crate::Fine"]
RTS = ["", "Result<(), E>", "std::result::Result<u8, E>", "Option<u8>", "MyResult<T>", "u8", "()", "&'static str",
       "impl Fn() -> Result<(), E>", "(u8, Result<u8, E>)", "Vec<Result<u8, E>>", "Box<dyn Error>", "Outcome", "!", "<S as T>::Result", "<S as a::Tr<Result<u8, E>>>::Out", "Result",
       "(Result<u8, E>)", "&Result<u8, E>", "Result!()", "dyn Fn() -> Result<u8, E>", "Result<u8, E>::Bad", "*const Result<(), E>",
       "[Result<u8, E>; 2]", "::Result<u8>", "Result::<u8, E>", "a::Result<u8>::Option<E>", "fn() -> Result<u8, E>", "_",
       "::std::result::Result<(), E>", "a::b::c::d::Result<u8>", "self::MyResult"]
LABELS = ["line", "col", "column", "path", "file", "nth", "fn_name", "fnname", "fn_sig", "fnsig", "source"]
BINDS = ["b_one", "b_two", "flag", "tagx", "_u", "__w", "Upper", "\u540d", "r#type"]
TARGETS = ['"?"', '"question"', '"return"', '"tail_expr"', '"tail expr"', '"tailexpr"', '"tailExpr"', '"all"']
NAMES = ["Err", "Ok", "Bad", "Fine", "mk", "run", "Some", "Err2"]
RTNAMES = ["Result", "Option", "MyResult", "Outcome", "u8"]


# code of methods' own (HooqWalk's Fixed)
FIXED = [("k_q", "g()?"), ("k_r", "{ return Err(1) }"), ("k_t", "|| Err(h?)")]

# attributes hooq must reject wherever it reads them
BAD = ["hooq::skip()", "hooq::skip_all(x)", "hooq::unknown", "hooq::unknown(1)", "hooq::method", 'hooq::hook_targets("Return")',
       "hooq::hook_targets(question)", 'hooq::hook_targets("?", 1)', 'hooq::hook_targets("?" "return")', "hooq::hook_targets",
       "hooq::hook_in_macros(yes)", "hooq::hook_in_macros()", 'hooq::hook_in_macros("true")', "hooq::hook_in_macros(true, false)",
       "hooq::tail_expr_idents(Err)", 'hooq::tail_expr_idents("Err", Ok)', "hooq::result_types(Result)", "hooq::result_types",
       "hooq::ignore_tail_expr_idents(b\"Ok\")", "hooq::ignore_tail_expr_idents = log", "hooq::flavor = nope", 'hooq::flavor = ""',
       "hooq::flavor = 1", "hooq::flavor", "hooq::flavor(log)", "hooq::bindings", "hooq::bindings(a = 1)", "hooq::binding(1)",
       "hooq::binding(a, b)", "hooq::binding", "hooq::var(a::b = 1)", "hooq::var(a = 1, b = 2)", "hooq::a::b", "hooq::a::b = 1",
       "hooq::a::b(1)", 'hooq::bindings = "log..error"', "hooq::method = log::<u8>", "::hooq::skip", "hooq::method = log::nope",
       'hooq::result_types = "log."', "hooq::hook_in_macros = true", "hooq::hook_in_macros = empty::x", "hooq::tail_expr_idents = [log]",
       "hooq::skip_al", "hooq::Skip"]


class Opts:
    p_q = 0.3           # `?` on a postfix expression
    p_attr = 0.2        # attributes where they are allowed
    p_root_attr = 0.3   # attributes on items
    depth = 4
    stmts = 4
    p_ret = 0.08
    p_macro = 0.08
    p_brk = 0.03        # `break`, `continue`
    deep = 0            # depth of one chain of nested code, instead of an item of any form
    nightly = 0.0       # `try' blocks, `yield'
    p_closure = 0.08
    p_item = 0.1
    p_nest = 1.0
    attr_kinds = ("method", "targets", "tails", "ignore", "results", "macros", "bind", "skip", "skip_all")
    labels = LABELS
    n_labels = 2
    expr_label = 0.0
    so = 0.0            # methods that use $so_far
    exc = 0.0           # `!`
    replace = 0.3       # replacing methods
    flavors = ()        # flavor paths for attributes
    layout = 0.0        # share of wild white space
    unicode = False
    callees = CALLEES
    rts = RTS
    weak = 1.0          # operands that bind weaker than a method call
    other_attrs = 0.05  # attributes that are not hooq's
    p_unbound = 0.0     # methods that ask for a binding there is not
    p_bad = 0.0         # attributes that are not right
    marks = False       # items come from a macro_rules! macro, some of their parts as its arguments
    p_clash = 0.0       # share of annotated nodes where one thing is set more than once


class Gen:
    def __init__(self, rng, opts):
        self.r, self.o = rng, opts
        self.tag = 0
        self.in_macro = 0
        # what the method so far is, on the way to the current node: "i" or "r" each
        self.chain = ["?"]
        self.bound = []
        self.root_node = False
        self.cur = None     # the method in force, if it may be repeated

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(list(xs))

    # ---- attributes
    def fields(self):
        r, o = self.r, self.o
        ls = r.sample(list(o.labels), min(len(o.labels), r.randint(0, o.n_labels)))
        if self.p(o.expr_label):
            ls.append("expr")
        bs = [b for b in self.bound if self.p(0.5)]
        ls = ["count"] + ls + bs
        if self.p(o.p_unbound):
            ls.append(self.pick(["nope", "lines", "r_x", "Line", "hooq"] + [b for b in BINDS if b not in self.bound]))
        own = "".join(f", __f!({k}, {t})" for k, t in FIXED if self.p(.04))
        return "".join(f", __f!({l}, ${l})" for l in dict.fromkeys(ls)) + own

    def method(self, first=False):
        # the method in force, set again
        if self.cur and not first and self.p(.12):
            return self.cur
        m = self.new_method(first)
        self.cur = m if m[0] == "i" or "$so" not in m[1] else None
        return m

    def new_method(self, first):
        self.tag += 1
        t = f"m{self.tag}"
        o = self.o
        prev = self.chain[-1]
        exc = "!" if self.p(o.exc) else ""
        so = self.pick(["$so_far", "$sofar"])
        use_so = not first and prev in "ir" and self.p(o.so)
        if self.p(o.replace):
            body = "$expr"
            if use_so:
                # a template is text: `$expr.$so_far' is only right for operands that bind tightly
                body = so if prev == "r" else f"$expr.{so}" if o.weak == 0 else "$expr"
            return "r", f'__vw("{t}"{self.fields()}, {body}){exc}'
        if use_so and prev == "i":
            parts = [f'__vp("{t}"{self.fields()})', so]
            if self.p(0.3):
                self.tag += 1
                parts.append(f'__vp("m{self.tag}"{self.fields()})')
            self.r.shuffle(parts)
            return "i", "." + ".".join(parts) + exc
        return "i", f'.__vp("{t}"{self.fields()}){exc}'

    def attr(self, kind):
        r = self.r
        if kind == "method":
            k, m = self.method(self._first)
            self._newmeth = k
            return f"hooq::method({m})"
        if kind == "targets":
            n = r.randint(0, 3)
            return "hooq::hook_targets(" + ", ".join(self.mark("l", r.choice(TARGETS)) for _ in range(n)) + ")"
        if kind == "tails":
            ns = [("!" if self.p(0.25) else "") + r.choice(NAMES) for _ in range(r.randint(0, 3))]
            return "hooq::tail_expr_idents(" + ", ".join(self.mark("l", f'"{n}"') for n in ns) + ")"
        if kind == "ignore":
            return "hooq::ignore_tail_expr_idents(" + ", ".join(self.mark("l", f'"{r.choice(NAMES)}"') for _ in range(r.randint(0, 2))) + ")"
        if kind == "results":
            return "hooq::result_types(" + ", ".join(self.mark("l", f'"{r.choice(RTNAMES)}"') for _ in range(r.randint(0, 3))) + ")"
        if kind == "macros":
            return f"hooq::hook_in_macros({self.mark('l', r.choice(['true', 'false']))})"
        if kind == "bind":
            n = r.choice(["level", "flag", "tagx"] if self.o.flavors and self.p(.6) else BINDS)
            v = r.choice(['42', '"s"', 'a + b', 'f(1)', '|x| x', 'Lv::Warn', 'vec![1]', '!x', '"\\u{e9}"', 'g()?', '{ Err(h?) }', '|| return 1'])
            self._newbind.append(n)
            v = self.mark("e", v)
            f = r.choice([f"hooq::{n} = {v}", f"hooq::binding({n} = {v})", f"hooq::var({n} = {v})"])
            return f
        if kind in ("skip", "skip_all"):
            return "hooq::" + kind
        if kind == "flavor":
            path, mode, binds, needs = r.choice(list(self.o.flavors))
            ws = ["hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]
            bs = [n for n in needs if n != "so"]
            # the method so far must be one of ours, and of the same form
            if mode in "ir" and (bs == needs or self.chain[-1] == "i" and not self._first):
                ws += ["flavor", "flavor", "flavor"]
                # on the node of the root attribute all bindings are those of the root flavor
                if set(bs) <= set(self.bound):
                    ws += ["method", "method"]
            w = r.choice(ws)
            if w in ("flavor", "method"):
                self._newmeth = mode
                self.cur = None
            if w in ("flavor", "bindings"):
                self._newbind += binds
            sp = r.choice(["::".join(path), '"' + ".".join(path) + '"', '"' + "::".join(path) + '"'])
            return f"hooq::{w} = {self.mark('l' if sp[0] == '"' else 'e', sp)}"
        raise KeyError(kind)

    def attrs(self, p=None, inner=False):
        """Attribute text; call leave() when the node is done."""
        o = self.o
        self._newmeth = None
        self._newbind = []
        out = []
        self._first, self.root_node = self.root_node, False
        if self.p(o.p_attr if p is None else p):
            n = 1 + (self.p(0.4) and 1) + (self.p(0.2) and 1)
            kinds = [k for k in o.attr_kinds]
            if o.flavors:
                kinds.append("flavor")
            picked = [self.r.choice(kinds) for _ in range(n)]
            if self.p(o.p_clash):
                # the same thing again, or a whole flavor after it
                a = self.r.choice(kinds)
                picked = [a, self.r.choice([a, "flavor"] if o.flavors else [a])]
                if self.p(.3):
                    picked.append(self.r.choice(kinds))
                self.r.shuffle(picked)
            # a second method on one node overrides the first: only the last counts
            for k in picked:
                out.append("#[" + self.attr(k) + "]" + SP)
        if self.p(o.p_bad):
            out.insert(self.r.randint(0, len(out)), "#[" + self.pick(BAD) + "]" + SP)
        if self.p(o.other_attrs):
            out.insert(self.r.randint(0, len(out)), self.other_attr())
        self.chain.append(self._newmeth or self.chain[-1])
        self.bound = self.bound + [b for b in self._newbind if b not in self.bound]
        return "".join(out)

    def other_attr(self):
        a = self.pick(["#[allow(unused)]", "#[rustfmt::skip]", "#[warn(clippy::all, unused)]", "#[doc = \" x\"]", "#[must_use]",
                       "#[clippy::msrv = \"1\"]"]) + SP
        return a * self.pick([1, 1, 1, 2, 3])

    def with_attrs(self, f, p=None):
        saved_bound, n, cur = self.bound, len(self.chain), self.cur
        a = self.attrs(p)
        body = f()
        self.cur = cur
        self.bound = saved_bound
        del self.chain[n:]
        return a, body

    def mark(self, kind, s):
        return MO + kind + s + MC if self.o.marks and s else s

    # ---- expressions
    def ident(self):
        return self.pick(["a", "b", "c", "foo", "self", "xs", "v2", "r#type"])

    def atom(self):
        return self.pick([self.ident(), "1", "0x1f", '"s"', "'c'", "true", "a::B", "1.5", 'b"x"', 'r#"q"#', "()",
                          *(['"日本語"', '"é"'] if self.o.unicode else [])])

    def args(self, d, n=None):
        n = (self.r.randint(0, 2) if self.r.random() < .97 else self.r.randint(3, 7)) if n is None else n
        return ("," + SP).join(self.arg(d) for _ in range(n))

    def arg(self, d):
        if self.p(self.o.p_attr * 0.4):
            a, b = self.with_attrs(lambda: self.postfix_noatom(d), p=1.0)
            return a + b
        return self.expr(d)

    def call(self, d):
        c = self.pick(self.o.callees)
        if self.p(0.1):
            c = f"({self.expr(d)})" if self.p(0.5) else c + "::<u8>"
        return (self.mark("p", c) if c[0] not in "(<" else c) + "(" + SP + self.args(d) + SP + ")"

    def postfix(self, d):
        """An expression that may be followed by `.` or `?`."""
        r, o = self.r, self.o
        if d <= 0:
            e = r.choice([self.ident(), self.pick(o.callees) + "()"])
            if self.p(.08):
                e = self.pick(['"s"', "'c'", "true", "a::B", 'b"x"', 'r#"q"#', "()", 'c"z"'])
        else:
            k = r.random()
            if k < 0.45:
                e = self.mark("e", self.call(d - 1))
            elif k < 0.65:
                e = self.postfix(d - 1) + SP + "." + r.choice(["get", "m", "iter", "await_it", "map::<u8>"]) + "(" + self.args(d - 1) + ")"
            elif k < 0.7:
                e = self.postfix(d - 1) + r.choice([".x", ".0", ".await"])
            elif k < 0.74:
                e = self.postfix(d - 1) + "[" + self.expr(d - 1) + "]"
            elif k < 0.82:
                e = "(" + (self.expr(d - 1) if self.p(o.weak) else self.postfix(d - 1)) + ")"
            elif k < 0.86:
                e = self.macro(d - 1)
                e = "(" + e + ")" if e.endswith("}") else e
            elif k < 0.9:
                e = self.pick(["{} {}", "unsafe {}", "{}"]).replace("{} {}", "{}").replace("{}", self.block(d - 1)) if False else "(" + self.blocklike(d - 1) + ")"
            elif k < 0.94:
                e = "[" + self.args(d - 1) + "]"
            else:
                e = self.ident()
        n = 0
        while self.p(o.p_q) and n < 3:
            e += SP + "?"
            n += 1
        return e

    def expr(self, d):
        return self.mark("e", self.expr_(d))

    def expr_(self, d):
        r, o = self.r, self.o
        if d <= 0:
            return self.postfix(0) if self.p(0.7) else self.atom()
        if self.p(o.p_brk):
            return "(" + self.brk(d) + ")"
        if self.p(o.p_attr * .1):
            return self.attributed(d)
        if self.p(o.p_ret):
            return "(return" + (" " + (self.expr(d - 1) if o.weak else self.postfix(d - 1)) if self.p(0.8) else "") + ")"
        if self.p(o.p_closure):
            return "(" + self.closure(d - 1) + ")"
        k = r.random()
        if k < 0.55:
            return self.postfix(d)
        if k < 0.62:
            return r.choice(["-", "!", "*", "&", "&mut ", "&raw const "]) + self.postfix(d - 1)
        if k < 0.70:
            return "(" + self.expr(d - 1) + SP + r.choice(["+", "*", "&&", "||", "<", "==", "|", "<<", "-"]) + " " + self.postfix(d - 1) + ")"
        if k < 0.73:
            return "(" + self.postfix(d - 1) + " as " + r.choice(["u8", "T", "&str"]) + ")"
        if k < 0.76:
            return "(" + self.postfix(d - 1) + r.choice(["..", "..="]) + self.postfix(d - 1) + ")"
        if k < 0.79:
            return "(" + self.expr(d - 1) + ",)" if self.p(0.3) else "(" + self.expr(d - 1) + "," + SP + self.expr(d - 1) + ")"
        if k < 0.81:
            return "[" + self.expr(d - 1) + ";" + SP + self.expr(d - 1) + "]"
        if k < 0.84:
            f = lambda n: (lambda ab: ab[0] + n + ":" + SP + (" " if unmark(ab[1]).startswith(":") else "") + ab[1])(self.with_attrs(lambda: self.expr(d - 1), p=o.p_attr * 0.5))
            rest = ", .." + self.postfix(d - 1) if self.p(0.3) else ""
            return "(S {" + SP + f("x") + "," + SP + f("y") + rest + " })"
        if k < 0.95:
            return "(" + self.blocklike(d - 1) + ")" if self.p(0.5) else self.blocklike_postfix(d - 1)
        return self.atom()

    def blocklike_postfix(self, d):
        # as an operand, blocks need no parentheses in argument position
        return self.blocklike(d)

    def attributed(self, d):
        """An expression of any kind that attributes are read on."""
        op = lambda: self.postfix_noatom(d - 1)
        def one():
            return self.pick([
                lambda: "[" + self.expr(d - 1) + ", " + self.expr(d - 1) + "]", lambda: "[" + self.expr(d - 1) + "; " + self.expr(d - 1) + "]",
                lambda: "(" + self.expr(d - 1) + ",)", lambda: "(" + self.expr(d - 1) + ", " + self.expr(d - 1) + ")", lambda: "(" + self.expr(d - 1) + ")",
                lambda: "S { x: " + self.expr(d - 1) + ", ..f(1)? }", lambda: self.pick(["-", "!", "*", "&", "&mut ", "&raw const "]) + op(),
                lambda: self.closure(d - 1), lambda: self.blocklike(d - 1), lambda: self.blocklike(d - 1), lambda: "return " + op(),
                lambda: "break " + op(), lambda: "break 'l (" + op() + ")", lambda: op() + " as u8", lambda: op() + self.pick(["..", "..=", " + ", " = ", " += ", " == "]) + op(),
                lambda: op() + "..", lambda: op() + ".x", lambda: op() + ".await", lambda: op() + "[" + self.expr(d - 1) + "]",
                lambda: self.macro(d - 1), lambda: op() + "?"])()
        a, b = self.with_attrs(one, p=1.0)
        return "(" + a + b + ")"

    def brk(self, d):
        """Expressions that leave a loop or block, with a value or not."""
        r = self.r
        val = lambda: self.expr(d - 1) if self.o.weak else self.postfix(d - 1)
        k = r.random()
        if k < .12:
            return r.choice(["continue", "continue 'l", "break", "break 'k"])
        if k < .12 + self.o.nightly:
            return "yield " + val()
        lab = r.choice(["", "'l ", "'k "])
        v = val()
        # a label or a block may not stand right after `break`
        return "break " + lab + ("(" + v + ")" if unmark(v).startswith(("'", "{", "(", ":")) else v)

    def cond(self, d):
        k = self.r.random()
        if k < 0.75:
            return self.postfix(d)
        if k < 0.9:
            return "let Some(v) = " + self.postfix(d)
        return "let Some(v) = " + self.postfix(d) + " && " + self.postfix(d)

    def blocklike(self, d):
        r = self.r
        k = r.random()
        if k < 0.3:
            s = "if " + self.cond(d) + " " + self.block(d)
            while self.p(0.3):
                s += " else if " + self.cond(d) + " " + self.block(d)
            if self.p(0.6):
                s += " else " + self.block(d)
            return s
        if k < 0.55:
            s = "match " + self.postfix(d) + " {" + SP
            for i in range(r.randint(0, 3)):
                g = " if " + self.cond_guard(d) if self.p(0.3) else ""
                b = self.tail_expr(d)
                s += r.choice([f"A{i}", "Some(x)", "1 | 2", "S { .. }"]) + g + " => " + b + "," + SP
            return s + "}"
        if k < 0.65:
            return r.choice(["unsafe ", "", "async ", "async move ", "const ", *(["try "] * 3 if self.o.nightly else [])]) + self.block(d)
        if k < 0.75:
            return "while " + self.cond(d) + " " + self.block(d)
        if k < 0.85:
            return "for x in " + self.postfix(d) + " " + self.block(d)
        if k < 0.92:
            return self.pick(["", "'l: "]) + "loop " + self.block(d)
        return self.pick(["'k: ", ""]) + self.block(d)

    def cond_guard(self, d):
        return self.postfix(d)

    def closure(self, d):
        r = self.r
        head = r.choice(["", "move ", "async "]) + r.choice(["||", "|x|", "|x: u8, (y, _): T|", "|&x|"])
        if self.p(0.5):
            rt = self.pick([t for t in self.o.rts if t and t != "!" and not t.startswith("impl")])
            return head + " -> " + self.mark("t", rt) + " " + self.block(d)
        if self.p(0.4):
            return head + " " + self.block(d)
        return head + " " + self.tail_expr(d)

    def tail_expr(self, d):
        """An expression in tail position, of any precedence."""
        return self.mark("e", self.tail_expr_(d))

    def tail_expr_(self, d):
        r, o = self.r, self.o
        k = r.random()
        if k < 0.5:
            return self.call(d - 1) if d > 0 else self.pick(o.callees) + "(1)"
        if k < 0.62:
            return self.expr(d) if o.weak else self.postfix(d)
        if k < 0.72:
            # (what a weak operand becomes in a template is not ours to say: see Opts.weak)
            return "return" + (" " + (self.tail_expr if o.weak else self.postfix)(d - 1) if self.p(0.85) else "") if d > 0 else "return"
        if k < 0.85 and self.p(o.weak):
            return r.choice([
                lambda: self.postfix(d) + " + " + self.postfix(d),
                lambda: "&" + self.postfix(d), lambda: "!" + self.postfix(d),
                lambda: self.postfix(d) + " as u8", lambda: self.postfix(d) + ".." + self.postfix(d),
                lambda: ".." + self.postfix(d), lambda: "-" + self.postfix(d) + " * 2",
                lambda: self.closure(d - 1) if d > 0 else "|| 1",
            ])()
        if k < 0.93 and d > 0:
            return self.blocklike_nolabel(d - 1)
        return self.postfix(d)

    def blocklike_nolabel(self, d):
        return self.blocklike(d)

    def macro(self, d):
        r = self.r
        name = r.choice(["m", "println", "vec", "a::b", "try_it"])
        k = r.random()
        if k < 0.7:
            n = r.randint(0, 3)
            parts = []
            for _ in range(n):
                parts.append(self.macro_arg(d))
            sep = r.choice([", ", "; "])
            inner = sep.join(parts) + (r.choice([",", ";", ""]) if parts else "")
        elif k < 0.85:
            inner = r.choice(["x => " + self.postfix(d), "=> " + self.postfix(d), self.postfix(d) + " => y", "@ " + self.postfix(d),
                              "a b " + self.postfix(d), self.postfix(d) + ", =", "let x", "$x " + self.postfix(d),
                              self.postfix(d) + " " + self.postfix(d)])
        else:
            inner = r.choice([lambda: self.item(d, in_fn=True), lambda: "let q = " + self.expr(d) + ";", lambda: self.postfix(d) + ";",
                              lambda: self.item(d, in_fn=True) + " " + self.item(d, in_fn=True),
                              lambda: "{ " + self.postfix(d) + "; " + self.tail_expr(d) + " }",
                              lambda: '"{}", ' + self.postfix(d)])()
        a, b = r.choice(["()", "()", "[]", "{}"])
        return name + "!" + a + SP + inner + SP + b

    def macro_arg(self, d):
        r = self.r
        k = r.random()
        if k < 0.7:
            return self.arg(d)
        if k < 0.8:
            return '"{} {:?}"'
        if k < 0.9:
            return "return " + self.postfix(d)
        return "|x| " + self.postfix(d)

    # ---- statements
    def block(self, d, lo=0):
        return "{" + SP + self.stmts(d, lo) + SP + "}"

    def stmts(self, d, lo=0):
        r, o = self.r, self.o
        n = r.randint(lo, max(lo, o.stmts if d > 1 else 2))
        out = [self.stmt(d) for _ in range(n)]
        if self.p(0.75):
            def tail():
                return self.tail_expr(d)
            a, b = self.tail_with_attrs(d)
            out.append(self.mark("e", a + b) if a else b)
        return SP.join(out)

    def tail_with_attrs(self, d):
        # a literal, path or `continue` takes no hooq attribute except as a tail, which this is;
        # attributes stick to the leftmost operand, so weak forms are left bare
        if self.p(self.o.p_attr):
            e = max(d - 1, 0)
            return self.with_attrs(lambda: self.pick([lambda: self.postfix_noatom(d), lambda: self.call(e), lambda: "return " + self.call(e),
                                                     lambda: "return " + self.postfix(e), lambda: self.macro(e),
                                                     lambda: self.blocklike(e).replace("'k: {", "unsafe {", 1).replace("const {", "unsafe {", 1)])(), p=1.0)
        return "", self.tail_expr(d)

    def postfix_noatom(self, d):
        e = self.postfix(d)
        return e if unmark(e)[-1] in ")]?" and not unmark(e).startswith(("(", "[")) else self.pick(self.o.callees) + "(" + e + ")"

    def stmt(self, d):
        r, o = self.r, self.o
        k = r.random()
        if k < o.p_item and d > 0:
            return self.item(d - 1, in_fn=True)
        k = r.random()
        if k < 0.35:
            def f():
                e = self.tail_expr(d) if self.p(0.3) else self.expr(d)
                els = ""
                if self.p(0.15):
                    els = " else " + self.block(d - 1 if d > 0 else 0)
                    e = self.postfix(d)
                return "let " + r.choice(["x", "_", "(a, b)", "Some(z)", "y: u8"]) + " =" + SP + e + els + ";"
            a, b = self.with_attrs(f)
            return a + b
        if k < 0.6:
            def f():
                return self.postfix_noatom(d) + ";"
            a, b = self.with_attrs(f)
            return a + b
        if k < 0.61:
            return self.brk(max(d, 1)) + ";"
        if k < 0.66:
            return self.postfix(d) + r.choice([" = ", " += "]) + self.expr(d) + ";"
        if k < 0.66 + o.p_ret:
            def f():
                return "return" + (" " + (self.tail_expr if o.weak else self.postfix)(d - 1) if d > 0 and self.p(0.9) else "") + ";"
            a, b = self.with_attrs(f)
            return a + b
        if k < 0.66 + o.p_ret + o.p_macro:
            def f():
                m = self.macro(d - 1 if d > 0 else 0)
                return m + (r.choice(["", ";"]) if m.endswith("}") else ";")
            a, b = self.with_attrs(f)
            return a + b
        if d > 0:
            def f():
                s = self.blocklike(d - 1)
                return s + (";" if s.startswith("async") else r.choice(["", ";"]))
            a, b = self.with_attrs(f)
            # such a block takes no attributes as a statement
            if b.startswith("'k: {"):
                b = b[4:]
            elif b.startswith("const"):
                b = "unsafe" + b[5:]
            return a + b
        return self.postfix_noatom(d) + ";"

    def nest(self, d):
        """A statement with code nested in it to a depth of `d'."""
        r = self.r
        if d == 0:
            return self.pick(["Err(a?)?;", "return Ok(1)?;", "let x = { mk() };", "b?;"])

        def f():
            m, q = self.pick([("{ ", " }"), ("unsafe { ", " }"), ("if a? { ", " } else { Err(1) }"), ("let x = |y| { ", " };"),
                              ("let x = move || -> Result<u8, E> { ", " Ok(1) };"), ("match a? { A => 1, _ => { ", " } }"), ("loop { ", " }"),
                              ("for x in y? { ", " }"), ("vec![{ ", " }, 1];"), ("let x = Ok(b, { ", " })?;"), ("let x = S { x: ({ ", " }) };"),
                              ("m!(", ");"), ("let Some(x) = y else { ", " };"), ("f({ ", " Err(2) })?.m(c?);"), ("fn", " }"),
                              ("return Err({ ", " });"), ("let x = async move { ", " }.await?;"), ("while let Some(x) = y? { ", " }"),
                              ("let x = [{ ", " Ok(3) }]?[1];"), ("let x = -({ ", " a })?;")])
            if m == "fn":
                self.chain.append(self.chain[-1])
                m = "fn inner()" + self.pick(["", " -> Result<u8, E>", " -> Option<u8>"]) + " { "
            if m == "m!(":
                return m + self.nest(d - 1).rstrip(";").replace("#[rustfmt::skip]", "") + q
            return m + self.nest(d - 1) + (SP + self.stmt(0) if self.p(.2) else "") + SP + self.tail(q) + q
        a, b = self.with_attrs(f)
        return a + b

    def tail(self, after):
        t = self.pick(["", "", "", "Err(c)", "Ok(c?)", "d", "mk(1)?"])
        return t + (";" if t and after.strip()[0] != "}" else "")

    # ---- items
    def func(self, d, name=None, quals=True, selfarg=False):
        r = self.r
        self.chain.append(self.chain[-1])
        name = name or self.pick(["f", "inner", "helper", "go", "r#fn"])
        q = r.choice(["", "", "pub ", "async ", "unsafe ", "const ", "pub(crate) async unsafe ", 'extern "C" ']) if quals else ""
        g = r.choice(["", "<T>", "<'a, T: Clone + 'a>"])
        ps = r.choice(["", "x: u8", "(a, b): (u8, T), c: &mut [u8; 3]", "f: impl Fn(u8) -> Result<u8, E>"])
        if selfarg:
            ps = r.choice(["&self", "self", "&mut self, x: u8", ps])
        rt = self.pick(self.o.rts)
        w = r.choice(["", "", " where T: Copy"]) if "T" in g else ""
        s = f"{q}fn {name}{g}({ps})" + (f" -> {self.mark('t', rt)}" if rt else "") + w + " "
        s += self.block(d, lo=1)
        self.chain.pop()
        return s

    def item(self, d, in_fn=False, top=False):
        """An item with its attributes."""
        r = self.r
        pa = self.o.p_root_attr if top else self.o.p_attr
        k = r.random()
        if k < 0.55:
            a, b = self.with_attrs(lambda: self.func(d), p=pa)
        elif k < 0.68:
            def f():
                its = []
                for _ in range(r.randint(1, 3)):
                    kk = r.random()
                    if kk < 0.7:
                        x, y = self.with_attrs(lambda: self.func(d - 1, quals=False, selfarg=True))
                    elif kk < 0.85:
                        x, y = self.with_attrs(lambda: "const C: u8 = " + self.expr(d - 1) + ";")
                    elif kk < 0.92:
                        x, y = "", "type X = u8;"
                    else:
                        x, y = self.with_attrs(lambda: (self.macro(max(0, d - 2)) + ";").replace("};", "}"))
                    its.append(x + y)
                return r.choice(["impl S ", "impl<T> Tr<T> for S<T> ", "unsafe impl Q for S "]) + "{" + SP + SP.join(its) + SP + "}"
            a, b = self.with_attrs(f, p=pa)
        elif k < 0.78:
            def f():
                its = []
                for _ in range(r.randint(1, 3)):
                    kk = r.random()
                    if kk < 0.6:
                        x, y = self.with_attrs(lambda: self.func(d - 1, quals=False, selfarg=True))
                    elif kk < 0.75:
                        x, y = self.with_attrs(lambda: "const C: u8 = " + self.expr(d - 1) + ";")
                    else:
                        x, y = "", r.choice(["fn g(&self) -> u8;", "type X;", "const D: u8;"])
                    its.append(x + y)
                return "trait Tr: Sized {" + SP + SP.join(its) + SP + "}"
            a, b = self.with_attrs(f, p=pa)
        elif k < 0.86:
            def f():
                return "mod md {" + SP + SP.join(self.item(d - 1) for _ in range(r.randint(1, 3))) + SP + "}"
            a, b = self.with_attrs(f, p=pa)
        elif k < 0.93:
            a, b = self.with_attrs(lambda: r.choice(["const", "static"]) + " K: T =" + SP + self.expr(d) + ";", p=pa)
        elif k < 0.96 and not top:
            a, b = "", "macro_rules! mr { ($x:expr) => { $x? }; () => { return Err(1) } }"
        elif not top:
            a, b = "", r.choice(["struct Q { x: u8 }", "enum En { A = 1, B }", "use a::b as c;", "type Al = u8;"])
        else:
            a, b = self.with_attrs(lambda: self.func(d), p=pa)
        return a + b


def lay_out(text, rng, wild, uni=False, crlf=False):
    out = []
    for ch in text:
        if ch != SP:
            out.append(ch)
            continue
        k = rng.random()
        if k >= wild:
            out.append(" " if rng.random() < 0.5 else "")
            continue
        out.append(rng.choice(["\n", "\n    ", "\n\n", "\t", " /* c */ ", " // c\n", "  ", "\n\t\t",
                               *([" /* 日本é */ ", " // ü\n\t"] if uni else [])]))
    s = "".join(out)
    if crlf:
        s = s.replace("\n", "\r\n")
    return s


def item(rng, opts, ident, root="", method=None, bound=()):
    """Source of one annotated item with id `ident`; `method' is the mode of the root flavor's method."""
    g = Gen(rng, opts)
    g.bound = list(bound)
    head = f"#[::hooq::hooq{root}]\n#[vcap::post({ident})]\n"
    if method is None:
        k, m = g.method(first=True)
        g.chain = [k]
        head += f"#[hooq::method({m})]\n"
    else:
        g.chain = [method]
        g.root_node = False
    if method is None:
        # on the node of the root attribute there is no method of ours so far
        g.root_node = True
    if opts.deep:
        body = g.with_attrs(lambda: "fn f() -> Result<u8, E> {" + SP + g.nest(opts.deep) + SP + g.nest(opts.deep // 2) + SP + "Ok(1) }", p=opts.p_root_attr)
        body = "".join(body)
    else:
        body = g.item(opts.depth, top=True)
    wild = opts.layout
    if not opts.marks:
        return head + lay_out(body, rng, wild, opts.unicode) + "\n"
    text, frags = fragments(head + HEAD + body, rng, rng.choice([.15, .4, .8]))
    head, body = text.split(HEAD)
    body = head + lay_out(body, rng, wild, opts.unicode)
    pat = " ; ".join(f"$zz{i}:" + KINDS[k] for i, (k, _) in enumerate(frags))
    args = " ;\n".join(lay_out(f, rng, wild, opts.unicode) for _, f in frags)
    return f"macro_rules! zz_{ident} {{ ({pat}) => {{ {body} }} }}\nzz_{ident}! {{\n{args}\n}}\n"


KINDS = {"e": "expr", "t": "ty", "p": "path", "l": "literal"}
HEAD = "\x04"


def fragments(text, rng, p):
    """Take out some of the marked parts, none within another; returns the text and the parts."""
    out, frags = [], []
    i = 0
    while i < len(text):
        if text[i] == MO and rng.random() < p:
            n, j = 1, i + 1
            while n:
                n += (text[j] == MO) - (text[j] == MC)
                j += 1
            f = unmark(text[i + 2:j - 1])
            # (a name of the macro's own would not be found where the part is written)
            if "$" not in f and "macro_rules" not in f:
                out.append(f"$zz{len(frags)}")
                frags.append((text[i + 1], f))
                i = j
                continue
        if text[i] == MO:
            i += 1
        elif text[i] != MC:
            out.append(text[i])
        i += 1
    return "".join(out), frags


def unmark(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == MO:
            i += 1
        elif s[i] != MC:
            out.append(s[i])
        i += 1
    return "".join(out)
