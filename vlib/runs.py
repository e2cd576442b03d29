"""HooqRun: generated programs that are compiled, run with every outcome, and compared with the specification."""
import concurrent.futures, json, os, random, re, subprocess
from . import common as C

MODES = {
    # mode: (root attribute, inner attributes, module with the operations, extra)
    "h": ("#[::hooq::hooq]", "#[hooq::method(.h($line, $col))]", "plain", ""),
    "hh": ("#[::hooq::hooq]", "#[hooq::method(hh($line, $col, $expr))]", "plain", ""),
    "so": ("#[::hooq::hooq]", "#[hooq::method(.h($line, $col))]", "plain", ["#[hooq::method(.$so_far.more($line, $col))]", "#[hooq::method($expr.$so_far.more($line, $col))]"]),
    "hook": ("#[::hooq::hooq(hook)]", "", "plain", ""),
    "default": ("#[::hooq::hooq]", "", "plain", ""),
    "log": ("#[::hooq::hooq(log)]", "", "plain", ""),
    "tracing": ("#[::hooq::hooq(tracing)]", "", "plain", ""),
    "anyhow": ("#[::hooq::hooq(anyhow)]", "", "any", ""),
    "eyre": ("#[::hooq::hooq(eyre)]", "", "ey", ""),
}
LEVELS = ["error", "warn", "info", "debug", "trace"]


class Ctx:
    """What can be used at a place."""

    def __init__(self, fn, rt, o=False):
        self.fn, self.rt, self.o = fn, rt, o      # function around (number), result type declared, option function
        self.vars, self.muts, self.clos, self.loops = [], [], [], []
        self.asy, self.tmp, self.rare = False, True, False

    def copy(self, **kw):
        c = Ctx(self.fn, self.rt, self.o)
        c.vars, c.muts, c.clos, c.loops = list(self.vars), list(self.muts), list(self.clos), list(self.loops)
        c.asy, c.tmp, c.rare = self.asy, self.tmp, self.rare
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Prog:
    def __init__(self, rng, mode, pid):
        self.r, self.mode, self.id = rng, mode, pid
        self.nodes, self.fns, self.x = [], [], []      # nodes and their surface forms
        self.ids = 0
        self.names = []
        self.opts = mode in ("h", "hh", "so", "hook")
        self.chained = mode in ("anyhow", "eyre")
        self.budget = rng.choice([12, 20, 30, 45])
        self.host = rng.choice(["fn", "fn", "impl", "mod", "trait"])
        if mode == "so":
            self.host = rng.choice(["impl", "mod", "trait"])
        self.root, self.lv = "", "ERROR"
        if mode in ("log", "tracing") and rng.random() < .7:
            l = rng.choice(LEVELS)
            self.root, self.lv = f"#[::hooq::hooq({mode}::{l})]", l.upper()

    def num(self):
        self.ids += 1
        return self.ids

    def nd(self, k, c=(), i=0, s="", form="", **kw):
        self.nodes.append({"k": k, "c": list(c), "i": i, "s": s, "h": "", "f": 0, "x": "", "callee": "", **kw})
        self.x.append(form)
        self.budget -= 1
        return len(self.nodes)

    def small(self, d):
        return d <= 0 or self.budget <= 0

    # --- functions

    def fn(self, kind, rt, nps):
        self.fns.append({"k": kind, "rt": rt, "ps": [], "b": 0})
        return len(self.fns)

    def program(self):
        """f1 is what is run; later functions are used by earlier ones."""
        r = self.r
        n = r.choice([1, 2, 2, 3])
        todo = []
        for j in range(n):
            o = j > 0 and self.opts and r.random() < .25
            alias = r.random() < .1
            kind = "afn" if j > 0 and not o and r.random() < .15 else "fn"
            i = self.fn(kind, not o and not alias, 0)
            self.fns[i - 1].update(o=o, alias=alias, np=0 if j == 0 else r.choice([0, 1, 2]), name=f"f{i}")
            todo.append(i)
        self.usable = {}
        for i in todo:
            self.usable[i] = [j for j in todo if j > i]
        for i in todo:
            f = self.fns[i - 1]
            c = Ctx(i, f["rt"], f["o"])
            c.asy = f["k"] == "afn"
            for _ in range(f["np"]):
                v = self.num()
                f["ps"].append(v)
                c.vars.append(v)
            self.budget = max(self.budget, 10)
            f["b"] = self.block("O" if f["o"] else "R", 4, c, "fn")

    # --- values. T is the type: V number, R result, O option, B truth, U nothing

    def target(self, e, kind, c, **kw):
        callee = self.callee(e)
        return self.nd("tgt", [e], s=kind, f=c.fn, callee=callee, **kw)

    def callee(self, e):
        n, f = self.nodes[e - 1], self.x[e - 1]
        if n["k"] in ("ok", "err", "some"):
            return {"ok": "Ok", "err": "Err", "some": "Some"}[n["k"]]
        return "f" if f.startswith("path") else ""

    def value(self, t, d, c):
        return {"V": self.V, "R": self.R, "O": self.O, "B": self.B}[t](d, c)

    def V(self, d, c):
        r = self.r
        if self.small(d):
            k = r.randint(0, 4)
            if k == 0 and c.vars:
                return self.nd("var", i=r.choice(c.vars))
            if k == 1:
                return self.nd("lit", i=r.randint(1, 9))
            if k == 2:
                return self.nd("val", i=self.num())
            return self.q(0, c)
        k = r.randint(0, 17)
        if k <= 6:
            return self.q(d, c)
        if k <= 8:
            return self.nd("sum", [self.V(d - 1, c), self.V(d - 1, c)],
                           form=r.choice(["add", "plus", "arr", "tup", "P", "+", "vec", "id+"]))
        if k == 9:
            return self.nd("sum", [self.V(d - 1, c)], form=r.choice(["id", "same", "par", "as", "ref"]))
        if k == 10:
            return self.nd("if", [self.cond(d - 1, c), self.block("V", d - 1, c), self.block("V", d - 1, c)])
        if k == 11:
            return self.block("V", d - 1, c, form=r.choice(["", "", "unsafe"]))
        if k == 12:
            return self.match("V", d, c)
        if k == 13 and c.tmp:
            return self.nd("twice", [self.V(d - 1, c.copy(loops=[]))])
        if k == 14:
            return self.nd("if", [self.cond(d - 1, c), self.armV(d - 1, c), self.armV(d - 1, c)], form="pick")
        if k == 15:
            return self.loop(d, c)
        if k == 16 and not self.small(d - 1):
            lab = f"'l{self.num()}"
            i = len(self.nodes)
            b = self.block("V", d - 1, c.copy(loops=[("blk", lab)]), s=lab)
            return b
        return self.q(d, c)

    def armV(self, d, c):
        return self.V(d, c.copy(tmp=False))

    def q(self, d, c):
        """A `?`."""
        r = self.r
        if c.o:
            return self.target(self.O(d - 1, c), "q", c)
        if r.random() < .2:
            if self.chained and r.random() < .5:
                e = self.nd("opo", i=self.num(), form="path opo")
            else:
                e = self.nd("ope", i=self.num(), form="path ope")
        else:
            e = self.R(d - 1, c, under=True)
        return self.target(e, "q", c)

    def leaf(self, c):
        r = self.r
        k = r.randint(0, 5)
        if k == 0 and c.tmp:
            return self.nd("op", [self.nd("tmp", i=self.num())], i=self.num(), form="tmp")
        if k == 1 and c.asy:
            return self.nd("op", i=self.num(), form="aop")
        return self.nd("op", i=self.num(), form="path op")

    def R(self, d, c, under=False):
        r = self.r
        if self.small(d):
            return self.leaf(c)
        k = r.randint(0, 19)
        if k <= 3:
            return self.leaf(c)
        if k <= 5:
            return self.nd("op", [self.V(d - 1, c)], i=self.num(), form=r.choice(["path op1", "meth"]))
        if k == 6:
            return self.nd("ok", [self.V(d - 1, c)], form="typed")
        if k == 7:
            return self.nd("err", [self.V(d - 1, c)], form="typed")
        if k <= 10:
            us = [j for j in self.usable.get(c.fn, []) if not self.fns[j - 1]["o"]]
            if us:
                j = r.choice(us)
                f = self.fns[j - 1]
                return self.nd("call", [self.V(d - 1, c) for _ in range(f["np"])], i=j,
                               form="await" if f["k"] == "afn" and c.asy else "block_on" if f["k"] == "afn" else "path")
            return self.leaf(c)
        if k == 11 and c.clos:
            j = r.choice(c.clos)
            return self.nd("call", [self.V(d - 1, c) for _ in self.fns[j - 1]["ps"]], i=j, form="path clo")
        if k == 12:
            return self.nd("if", [self.cond(d - 1, c), self.block("R", d - 1, c), self.block("R", d - 1, c)])
        if k == 13:
            return self.match("R", d, c)
        if k == 14:
            return self.block("R", d - 1, c)
        if k == 15 and c.tmp:
            n = self.nd("tmp", i=self.num())
            return self.nd("op", [n], i=self.num(), form="tmp")
        if k == 16:
            j = self.closure(d, c, 0)
            return self.nd("call", [], i=j, form="iife")
        if k == 17:
            a = c.copy(loops=[], asy=True, muts=[], tmp=True, rt=False)
            b = self.block("R", d - 1, a, tail="ok")
            return self.nd("asy", [b], form="await" if c.asy else "block_on")
        return self.leaf(c)

    def O(self, d, c):
        r = self.r
        if self.small(d):
            return self.nd("opo", i=self.num(), form="path opo")
        k = r.randint(0, 9)
        if k <= 4:
            return self.nd("opo", i=self.num(), form="path opo")
        if k == 5:
            return self.nd("some", [self.V(d - 1, c)])
        if k == 6:
            return self.nd("if", [self.cond(d - 1, c), self.block("O", d - 1, c), self.block("O", d - 1, c)])
        if k == 7:
            us = [j for j in self.usable.get(c.fn, []) if self.fns[j - 1]["o"]]
            if us:
                j = r.choice(us)
                return self.nd("call", [self.V(d - 1, c) for _ in range(self.fns[j - 1]["np"])], i=j, form="path")
        if k == 8:
            return self.block("O", d - 1, c)
        return self.nd("opo", i=self.num(), form="path opo")

    def B(self, d, c):
        r = self.r
        if self.small(d):
            return self.nd("cnd", i=self.num())
        k = r.randint(0, 8)
        if k <= 3:
            return self.nd("cnd", i=self.num())
        if k == 4:
            return self.nd("not", [self.B(d - 1, c)])
        if k <= 6:
            return self.nd(r.choice(["and", "or"]), [self.B(d - 1, c.copy(tmp=False)), self.B(d - 1, c.copy(tmp=False))])
        return self.nd("odd", [self.V(d - 1, c)])

    def cond(self, d, c):
        return self.B(d, c)

    def match(self, t, d, c):
        r = self.r
        v = self.num()
        k = "iflet" if r.random() < .35 else "mat"
        e = self.R(d - 1, c.copy(tmp=c.tmp and k == "mat"), under=True) if not c.o else self.O(d - 1, c.copy(tmp=c.tmp and k == "mat"))
        c1 = c.copy()
        c1.vars.append(v)
        rare = c.copy(rare=True)
        if k == "iflet":
            return self.nd(k, [e, self.block(t, d - 1, c1), self.block(t, d - 1, rare)], i=v, form="o" if c.o else "")
        a = self.arm(t, d - 1, c1)
        b = self.arm(t, d - 1, rare, diverge=.2)
        return self.nd("mat", [e, a, b], i=v, form="o" if c.o else "")

    def arm(self, t, d, c, diverge=0):
        """The body of an arm: a block, or an expression, which is a value target of the lesser kind."""
        r = self.r
        if r.random() < diverge:
            return self.diverge(d, c)
        if r.random() < .4:
            return self.block(t, d, c)
        e = self.value(t, d, c)
        if t in "RO" or self.callee(e):
            return self.target(e, "blk", c)
        return e

    def diverge(self, d, c):
        r = self.r
        if c.loops and c.rare and r.random() < .6:
            kind, lab = r.choice(c.loops)
            x = r.choice(["brk", "cont"]) if kind not in ("blk", "loop") else "brk"
            last = (kind, lab) == c.loops[-1] and kind != "blk"
            s = "" if last and r.random() < .5 else lab
            cs = [self.V(d - 1, c)] if kind in ("blk", "loop") else []
            # what breaks an unlabelled loop is its innermost one
            return self.nd("brk", cs, s=s, x=x)
        if c.rt and not c.o and r.random() < .4:
            v = self.nd(r.choice(["ok", "err"]), [self.V(d - 1, c)])
        else:
            v = self.O(d - 1, c) if c.o else self.R(d - 1, c)
        return self.target(v, "ret", c)

    def loop(self, d, c):
        lab = f"'l{self.num()}"
        b = self.block("U", d - 1, c.copy(loops=c.loops + [("loop", lab)], rare=False), form="body",
                       end=lambda cc: self.nd("brk", [self.V(d - 1, cc)], s=self.r.choice(["", lab]), x="brk"))
        return self.nd("loop", [b], s=lab)

    def closure(self, d, c, nps):
        """A closure; its number."""
        r = self.r
        decl = r.random() < .7 or nps > 1
        i = self.fn("clo", decl, nps)
        f = self.fns[i - 1]
        self.usable[i] = self.usable.get(c.fn, [])
        f.update(o=False, alias=False, name=f"c{i}", decl=decl)
        a = c.copy(loops=[], asy=False, muts=[], tmp=True, rare=False, o=False)
        a.fn, a.rt = i, decl
        for _ in range(nps):
            v = self.num()
            f["ps"].append(v)
            a.vars.append(v)
        self.budget = max(self.budget, 6)
        if decl:
            f["b"] = self.block("R", d - 1, a, "clo")
        else:
            # the type is settled by what it ends in
            e = self.leaf(a)
            f["b"] = self.target(e, "clo", a) if r.random() < .5 else self.block("R", d - 1, a, "clo", tail="op")
        return i

    # --- blocks

    def block(self, t, d, c, role="blk", tail="", s="", form="", end=None):
        r = self.r
        cc = c.copy()
        cs = []
        n = r.choice([0, 0, 1, 1, 2, 3]) if not self.small(d) else 0
        if role == "fn":
            n = r.choice([1, 2, 3, 4])
        for _ in range(n):
            cs.append(self.stmt(d, cc))
        if end:
            cs.append(end(cc))
            if r.random() < .5:
                cs.append(self.nd("unit"))
        elif t == "U":
            cs.append(self.nd("unit"))
        else:
            if tail == "ok":
                e = self.nd("ok", [self.V(d - 1, cc)], form="typed")
            elif tail == "op":
                e = self.leaf(cc)
            elif t == "R" and role == "fn" and r.random() < .35:
                e = self.nd("ok", [self.V(d - 1, cc)])
            elif t == "R" and role == "fn" and r.random() < .2:
                e = self.nd("err", [self.V(d - 1, cc)])
            elif t == "R" and role != "fn" and r.random() < .2:
                e = self.nd("err", [self.V(d - 1, cc)], form="typed")
            elif role in ("fn", "clo") and t == "R" and r.random() < .1:
                # a tail return
                e = self.target(self.R(d - 1, cc), "ret", cc)
                cs.append(e)
                return self.nd("blk", cs, s=s, form=form)
            else:
                e = self.value(t, d - 1, cc)
            if t in "RO" or self.callee(e):
                e = self.target(e, role, cc)
            cs.append(e)
        return self.nd("blk", cs, s=s, form=form)

    def stmt(self, d, c):
        r = self.r
        k = r.randint(0, 15)
        if k <= 3:
            e = self.V(d - 1, c)
            v = self.num()
            mut = r.random() < .3
            (c.muts if mut else c.vars).append(v)
            return self.nd("let", [e], i=v, form="mut" if mut else "")
        if k == 4:
            return self.nd("sexp", [self.V(d - 1, c)])
        if k == 5 and c.muts:
            return self.nd("asg", [self.V(d - 1, c)], i=r.choice(c.muts))
        if k <= 7:
            return self.nd("grd", i=self.num())
        if k == 8:
            b = self.block("U", d - 1, c.copy(rare=True), form="body", end=lambda cc: self.diverge(d - 1, cc))
            return self.nd("if", [self.cond(d - 1, c), b], form="stmt")
        if k == 9:
            e = self.R(d - 1, c.copy(tmp=False), under=True) if not c.o else self.O(d - 1, c.copy(tmp=False))
            b = self.block("U", d - 1, c.copy(rare=True), form="body", end=lambda cc: self.diverge(d - 1, cc))
            v = self.num()
            c.vars.append(v)
            return self.nd("letelse", [e, b], i=v, form="o" if c.o else "")
        if k == 10:
            lab = f"'l{self.num()}"
            a = c.copy(loops=c.loops + [("for", lab)], rare=False)
            return self.nd("for", [self.block("U", d - 1, a, form="body")], i=r.randint(0, 2), s=lab)
        if k == 11:
            lab = f"'l{self.num()}"
            a = c.copy(loops=c.loops + [("while", lab)], rare=False)
            return self.nd("while", [self.nd("cnd", i=self.num()) if r.random() < .6 else
                                     self.nd("and", [self.nd("cnd", i=self.num()), self.B(d - 1, c.copy(tmp=False, loops=[]))]),
                                     self.block("U", d - 1, a, form="body")], s=lab)
        if k == 12 and not c.o:
            lab = f"'l{self.num()}"
            v = self.num()
            a = c.copy(loops=c.loops + [("while", lab)], rare=False)
            a.vars.append(v)
            e = self.nd("if", [self.nd("cnd", i=self.num()), self.block("R", d - 1, c.copy(tmp=False, loops=[])),
                               self.block("R", 0, c.copy(tmp=False, loops=[]), form="errs")], form="")
            self.force_err(e)
            return self.nd("whilelet", [e, self.block("U", d - 1, a, form="body")], i=v, s=lab)
        if k == 13 and not c.o and not self.small(d):
            j = self.closure(d, c, r.choice([0, 1, 2]))
            c.clos.append(j)
            return self.nd("unit", form=f"closure {j}")
        if k == 14:
            e = self.R(d - 1, c, under=True) if not c.o else self.O(d - 1, c)
            return self.nd("sexp", [e], form="let")
        return self.nd("sexp", [self.V(d - 1, c)], form="let")

    def force_err(self, e):
        """The last part of the condition of a `while let` fails, so that the loop ends."""
        b = self.nodes[self.nodes[e - 1]["c"][2] - 1]
        v = self.nd("lit", i=1)
        x = self.nd("err", [v], form="typed")
        t = self.nodes[b["c"][-1] - 1]
        t["c"] = [x]
        t["callee"] = "Err"


    def spec(self):
        return {"fns": [{k: x[k] for k in ("k", "rt", "ps", "b")} for x in self.fns], "n": self.nodes}

    # --- text

    def path(self, name, plain):
        return {"fn": "", "mod": "", "impl": "S::", "trait": "<S as T>::"}[self.host] + name

    def text(self, out, rng, plain):
        """A module with the functions of the program."""
        root, inner, ops, each = MODES[self.mode]
        root = self.root or root
        attr = "" if plain else root + (" " + inner if inner else "")
        out(f"mod {self.id}{'p' if plain else 'h'} {{\n    use vrt::{ops}::*; use vrt::{{id, twice, pick}};\n    pub struct S; pub type R = Result<u32, E>;\n")
        opened = {"fn": None, "impl": "impl S {", "trait": "trait T {", "mod": "mod m { use super::*;"}[self.host]
        if opened:
            out(f"    {attr}\n    {opened}\n")
        for f in self.fns:
            if f["k"] == "clo":
                continue
            if not opened:
                out(f"    {attr}\n")
            if each and not plain:
                out(f"    {rng.choice(each)}\n")
            vis = "" if self.host == "trait" else "pub "
            ps = ", ".join(f"x{v}: u32" for v in f["ps"])
            rt = "Option<u32>" if f["o"] else "R" if f["alias"] else rng.choice(["Result<u32, E>", "std::result::Result<u32, E>"])
            out(f"    {vis}{'async ' if f['k'] == 'afn' else ''}fn {f['name']}({ps}) -> {rt} ")
            rd = Render(self, out, rng, plain)
            rd.block(f["b"])
            out("\n")
        if opened:
            out("    }\n")
        if self.host == "trait":
            out("    impl T for S {}\n")
        out(f"    pub fn run() -> String {{ show({'m::' if self.host == 'mod' else self.path('', plain)}f1()) }}\n}}\n")


class Out:
    def __init__(self):
        self.t, self.line, self.col = [], 1, 1

    def __call__(self, s):
        self.t.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n")
        else:
            self.col += len(s)

    def place(self):
        return f"{self.line}:{self.col}"

    def text(self):
        return "".join(self.t)


ATOM = {"lit", "var", "val", "call", "op", "ope", "opo"}


class Render:
    def __init__(self, p, out, rng, plain):
        self.p, self.o, self.r, self.plain = p, out, rng, plain
        self.ind = 1

    def nl(self):
        self.o("\n" + "    " * self.ind)

    def sp(self):
        """Blanks or a new line where they do not matter."""
        x = self.r.random()
        if x < .08:
            self.o("\n" + "    " * (self.ind + 1))
        elif x < .12:
            self.o(" /* ? */ ")

    def paren(self, n):
        k, f = self.p.nodes[n - 1]["k"], self.p.x[n - 1]
        if k in ATOM and f not in ("await", "iife") or k == "tgt" and self.p.nodes[n - 1]["s"] == "q":
            self.e(n)
        else:
            self.o("(")
            self.e(n)
            self.o(")")

    def args(self, cs):
        self.o("(")
        for i, c in enumerate(cs):
            if i:
                self.o(", ")
            self.sp()
            self.e(c)
        self.o(")")

    def block(self, n):
        nd, f = self.p.nodes[n - 1], self.p.x[n - 1]
        assert nd["k"] == "blk", nd
        if nd["s"]:
            self.o(nd["s"] + ": ")
        if f == "unsafe":
            self.o("unsafe ")
        self.o("{")
        self.ind += 1
        for j, c in enumerate(nd["c"]):
            if self.p.nodes[c - 1]["k"] == "unit" and j == len(nd["c"]) - 1:
                continue
            self.nl()
            last = j == len(nd["c"]) - 1
            k = self.p.nodes[c - 1]["k"]
            if not last or k in ("brk",) or f == "body":
                self.stmt(c)
            else:
                self.e(c)
        self.ind -= 1
        self.nl()
        self.o("}")

    def stmt(self, n):
        p, o = self.p, self.o
        nd, f = p.nodes[n - 1], p.x[n - 1]
        k, c = nd["k"], nd["c"]
        if k == "let":
            o(f"let {'mut ' if f == 'mut' else ''}x{nd['i']}" + (": u32" if self.r.random() < .5 else "") + " = ")
            self.sp()
            self.e(c[0])
            o(";")
        elif k == "sexp":
            t = p.nodes[c[0] - 1]
            if f == "let" or not self.plain_start(c[0]):
                o("let _ = ")
            self.e(c[0])
            o(";")
        elif k == "asg":
            o(f"x{nd['i']} += ")
            self.e(c[0])
            o(";")
        elif k == "grd":
            o(f"let _g{nd['i']} = grd({nd['i']});")
        elif k == "letelse":
            o(("let Some(x%d) = " if f == "o" else "let Ok(x%d) = ") % nd["i"])
            self.paren(c[0])
            o(" else ")
            self.block(c[1])
            o(";")
        elif k == "for":
            o(f"{nd['s']}: for _ in 0..{nd['i']} ")
            self.block(c[0])
        elif k == "while":
            o(f"{nd['s']}: while ")
            self.e(c[0])
            o(" ")
            self.block(c[1])
        elif k == "whilelet":
            o(f"{nd['s']}: while let Ok(x{nd['i']}) = (")
            self.e(c[0])
            o(") ")
            self.block(c[1])
        elif k == "unit" and f.startswith("closure "):
            j = int(f.split()[1])
            o(f"let c{j} = ")
            self.closure(j)
            o(";")
        elif k == "if" and f == "stmt":
            o("if ")
            self.e(c[0])
            o(" ")
            self.block(c[1])
        else:
            self.e(n)
            o(";")

    def plain_start(self, n):
        nd, f = self.p.nodes[n - 1], self.p.x[n - 1]
        if nd["k"] == "tgt" and nd["s"] == "q":
            return self.plain_start(nd["c"][0])
        return nd["k"] in ("op", "ope", "opo", "call", "val") and f not in ("iife", "meth")

    def closure(self, j):
        f = self.p.fns[j - 1]
        o = self.o
        o("|" + ", ".join(f"x{v}: u32" for v in f["ps"]) + "|")
        o(" -> Result<u32, E> " if f["decl"] else " ")
        if self.p.nodes[f["b"] - 1]["k"] == "blk":
            self.block(f["b"])
        else:
            self.e(f["b"])

    def e(self, n):
        p, o = self.p, self.o
        nd, f = p.nodes[n - 1], p.x[n - 1]
        k, c, i = nd["k"], nd["c"], nd["i"]
        if k == "tgt":
            if nd["s"] == "q":
                self.paren(c[0])
                self.sp()
                self.mark(nd)
                o("?")
            elif nd["s"] == "ret":
                self.mark(nd)
                o("return ")
                self.sp()
                self.e(c[0])
            else:
                self.mark(nd)
                self.e(c[0])
        elif k == "lit":
            o(f"{i}u32")
        elif k == "var":
            o(f"x{i}")
        elif k == "val":
            o(f"val({i})")
        elif k == "cnd":
            o(f"cnd({i})")
        elif k == "op":
            if f == "path op":
                o(f"op({i})")
            elif f == "path op1":
                o(f"op1({i}, ")
                self.e(c[0])
                o(")")
            elif f == "meth":
                self.paren(c[0])
                self.sp()
                o(f".meth({i}, 0)")
            elif f == "tmp":
                o(f"grd({p.nodes[c[0] - 1]['i']})")
                self.sp()
                o(f".op({i})")
            elif f == "aop":
                o(f"aop({i}).await")
        elif k in ("ope", "opo"):
            o(f"{k}({i})")
            if k == "opo" and self.plain and p.chained:
                o(".ok_or(err(0))")
        elif k == "sum":
            if len(c) == 1:
                a, b = {"id": ("id!(", ")"), "same": ("same(", ")"), "par": ("(", ")"), "as": ("((", ") as u32)"), "ref": ("(*&(", "))")}[f]
                o(a)
                self.e(c[0])
                o(b)
            elif f == "plus":
                self.paren(c[0])
                o(".plus")
                self.args(c[1:])
            elif f in ("+", "id+"):
                o("(")
                self.paren(c[0])
                o(" + ")
                o("id!(") if f == "id+" else None
                self.paren(c[1])
                o(")") if f == "id+" else None
                o(")")
            elif f == "add":
                o("add")
                self.args(c)
            else:
                a, m, b = {"arr": ("[", ", ", "].total()"), "vec": ("vec![", ", ", "].total()"), "tup": ("(", ", ", ").total()"),
                           "P": ("(P { x: ", ", y: ", " }).total()")}[f]
                o(a)
                self.e(c[0])
                o(m)
                self.sp()
                self.e(c[1])
                o(b)
        elif k == "ok":
            o("Ok::<u32, E>(" if f == "typed" else "Ok(")
            self.e(c[0])
            o(")")
        elif k == "err":
            o("Err::<u32, E>(err(" if f == "typed" else "Err(err(")
            self.e(c[0])
            o("))")
        elif k == "some":
            o("Some(")
            self.e(c[0])
            o(")")
        elif k == "call":
            fn = p.fns[i - 1]
            if f == "iife":
                o("(")
                self.closure(i)
                o(")()")
            else:
                if f == "block_on":
                    o("block_on(")
                o(fn["name"] if f == "path clo" else p.path(fn["name"], self.plain))
                self.args(c)
                o({"block_on": ")", "await": ".await"}.get(f, ""))
        elif k == "asy":
            o("block_on(async " if f == "block_on" else "async ")
            self.block(c[0])
            o(")" if f == "block_on" else ".await")
        elif k == "blk":
            self.block(n)
        elif k == "if":
            if f == "pick":
                o("pick!(")
                self.e(c[0])
                o(", ")
                self.e(c[1])
                o(", ")
                self.e(c[2])
                o(")")
            else:
                o("if ")
                self.e(c[0])
                o(" ")
                self.block(c[1])
                o(" else ")
                self.block(c[2])
        elif k in ("and", "or"):
            o("(")
            self.e(c[0])
            o(" && " if k == "and" else " || ")
            self.e(c[1])
            o(")")
        elif k == "not":
            o("!")
            self.e(c[0]) if p.nodes[c[0] - 1]["k"] in ("cnd", "and", "or", "not") else self.paren(c[0])
        elif k == "odd":
            self.paren(c[0])
            o(".odd()")
        elif k == "mat":
            o("match ")
            self.paren(c[0])
            o(" {")
            self.ind += 1
            self.nl()
            o("%s(x%d) => " % ("Some" if f == "o" else "Ok", i))
            self.e(c[1])
            o(",")
            self.nl()
            o("None => " if f == "o" else "Err(_) => ")
            self.e(c[2])
            self.ind -= 1
            self.nl()
            o("}")
        elif k == "iflet":
            o("if let %s(x%d) = " % ("Some" if f == "o" else "Ok", i))
            self.paren(c[0])
            o(" ")
            self.block(c[1])
            o(" else ")
            self.block(c[2])
        elif k == "twice":
            o("twice!(")
            self.e(c[0])
            o(")")
        elif k == "loop":
            o(f"{nd['s']}: loop ")
            self.block(c[0])
        elif k == "brk":
            o("break" if nd["x"] == "brk" else "continue")
            if nd["s"]:
                o(" " + nd["s"])
            if c:
                o(" ")
                self.paren(c[0])
        else:
            raise AssertionError(k)

    def mark(self, nd):
        if not self.plain:
            nd["h"] = self.o.place()


def generate(rng, mode, pid):
    p = Prog(rng, mode, pid)
    p.program()
    return p


def source(progs, rng, plain_only=False):
    o = Out()
    o("#![allow(warnings)]\n")
    for p in progs:
        for plain in ((True,) if plain_only else (False, True)):
            p.text(o, rng, plain)
    o("fn main() {\n    vrt::init();\n")
    for p in progs:
        for h in ("p",) if plain_only else ("h",) if p.chained else ("h", "p"):
            o(f'    vrt::all_tapes("{p.id}{h}", {TAPE}, {MAXRUNS}, {p.id}{h}::run);\n')
    o("}\n")
    return o.text()


TAPE, MAXRUNS = 6, 40


def compile(art, d, main, exe, manifest=None):
    ex = []
    for n in ("vrt", "log", "anyhow", "eyre", "tracing"):
        ex += ["--extern", f"{n}={art[n]}"]
    return C.rustc(art, d, main, exe, manifest, None, emit="link", extra_args=ex + ["-C", "debuginfo=0"], extra_env={"RUSTC_BOOTSTRAP": "1"})


def play(job):
    """One file of programs: generate, compile, run; returns programs and runs."""
    name, base, seed, modes = job
    rng = random.Random(f"runs/{seed}/{name}")
    d = os.path.join(base, name)
    os.makedirs(d)
    art = C.build()
    progs = [generate(rng, m, f"p{i}") for i, m in enumerate(modes)]
    st = rng.getstate()
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(source(progs, rng))
    exe = os.path.join(d, "exe")
    rc, diags, _ = compile(art, d, "main.rs", exe)
    if rc != 0:
        errs = [g for g in diags if g.get("level") == "error"]
        with open(os.path.join(d, "plain.rs"), "w") as f:
            f.write(source(progs, rng, plain_only=True))
        prc, pd, _ = compile(art, d, "plain.rs", exe + "p")
        if prc != 0:
            raise C.CheckError(f"{d}: generated programs do not compile: {[(g['message'], [s['line_start'] for s in g['spans']]) for g in pd if g.get('level') == 'error'][:4]}")
        return d, progs, None, [(g["message"], [s["line_start"] for s in g["spans"]]) for g in errs[:6]]
    try:
        r = subprocess.run([exe], cwd=d, capture_output=True, timeout=100)
        err = r.stderr.decode(errors="replace")
        bad = "" if r.returncode == 0 else f"exit code {r.returncode}"
    except subprocess.TimeoutExpired as x:
        err, bad = (x.stderr or b"").decode(errors="replace"), "does not end"
    os.remove(exe)
    runs, cur = [], None
    for l in err.splitlines():
        if l.startswith("~run "):
            cur = {"id": l[5:], "ev": []}
            runs.append(cur)
        elif l.startswith("~all"):
            cur = None
        elif cur is not None and (l.startswith("~") or l.startswith("[main.rs:")):
            cur["ev"].append(l.lstrip("~"))
    if bad:
        return d, progs, runs, [(bad, [])]
    return d, progs, runs, []


def explore(res, base, progs, tape, n):
    """All outcomes of small programs, hooked and plain, on the specification alone."""
    small = sorted((p for p in progs if len(p.nodes) > 8), key=lambda p: len(p.nodes))[:n]
    P = os.path.join(base, "small.ndjson")
    with open(P, "w") as f:
        for p in small:
            f.write(json.dumps(p.spec()) + "\n")
    rc, out = C.tlc("HooqRunMC", env={"PROGS": P, "TAPE": str(tape)}, timeout=600)
    if rc != 0:
        raise C.CheckError("HooqRunMC does not hold:\n" + out[-4000:])
    gen, dist = C.tlc_counts(out)
    res.states += dist
    res.transitions += gen
    res.add(model_programs=len(small), model_states=dist)


def check(res, tier, seed, base):
    k = {"quick": 1, "thorough": 15}[tier]
    ms = list(MODES)
    jobs = []
    for i in range(40 * k):
        rng = random.Random(f"modes/{seed}/{i}")
        jobs.append((f"r{i}", base, seed, [rng.choice(ms + ["h", "h", "default"]) for _ in range(16)]))
    done = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(play, jobs))
    progs, runs = [], []
    for d, ps, rs, bad in done:
        if bad:
            res.viols.append({"what": ["annotated programs do not compile or run", bad], "case": d})
            continue
        at = {}
        for p in ps:
            progs.append(p)
            at[p.id] = len(progs)
        for r in rs:
            p = progs[at[r["id"][:-1]] - 1]
            runs.append({"p": at[r["id"][:-1]], "mode": p.mode if r["id"][-1] == "h" else "plain", "lv": p.lv, "ev": r["ev"],
                         "where": (d, r["id"])})
    explore(res, base, progs, 5 if tier == "thorough" else 4, 60 * k)
    P = os.path.join(base, "progs.ndjson")
    with open(P, "w") as f:
        for p in progs:
            f.write(json.dumps(p.spec()) + "\n")
    out, bad = C.tlc_records("HooqRunTrace", [{k: r[k] for k in ("p", "mode", "lv", "ev")} for r in runs], {"PROGS": P}, "RUNS", 850,
                             mem="12g")
    if bad is not None:
        res.viols.append({"what": [C.ODD], "mode": runs[bad]["mode"], "log": runs[bad]["ev"], "case": runs[bad]["where"]})
    gen, dist = C.tlc_counts(out)
    res.states += dist
    res.transitions += gen
    res.traces += len(runs)
    res.add(programs=len(progs), targets=sum(1 for p in progs for n in p.nodes if n["k"] == "tgt"), events=sum(len(r["ev"]) for r in runs),
            hook_calls=sum(1 for r in runs for e in r["ev"] if e.startswith(("hook", "more", "meta", "log", "["))))
    for v in C.tlc_viols(out):
        r = runs[v["run"] - 1]
        if r["mode"] == "plain":
            raise C.CheckError(f"the specification does not describe a plain program: {r['where']} {v} {r['ev']}")
        res.viols.append({"what": [v["want"], v["got"], "event %d" % v["pos"]], "mode": r["mode"], "log": r["ev"], "case": r["where"]})
    if runs:
        res.samples.append({"mode": runs[0]["mode"], "log": runs[0]["ev"][:40]})
