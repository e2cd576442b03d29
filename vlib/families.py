"""Families of cases: what is expanded for a property, from a seed."""
import random
from . import gen, walk


def opts(**kw):
    o = gen.Opts()
    for k, v in kw.items():
        assert hasattr(gen.Opts, k), k
        setattr(o, k, v)
    return o


LINE = ["line", "col", "column", "path", "file"]
FNL = ["fn_name", "fnname", "fn_sig", "fnsig"]
SRC = ["source"]
CNT = ["nth"]

# one node with settings of its own and a whole flavor, in either order
CLASH = [dict(p_attr=.35, p_clash=.8, p_macro=.3, p_q=.4, attr_kinds=("macros", "macros", "tails", "ignore", "results", "targets"))]
# built-in flavors left in part by attributes
PARTLY = [dict(p_attr=.4, attr_kinds=("results", "tails", "ignore", "method", "targets", "macros"), p_ret=.2, p_closure=.15, p_root_attr=.3)]
# per property: variants of the generator's options, taken in turn
PROFILES = {
    "P01": [dict(p_attr=.15, other_attrs=.2, layout=.2), dict(p_attr=.05, p_macro=.25, exc=.2, p_item=.2),
            dict(p_attr=.3, replace=.8, exc=.3, unicode=True), dict(p_attr=.1, stmts=6, depth=5), dict(p_attr=.15, nightly=.2, p_ret=.15)],
    "P02": [dict(p_q=.5, p_attr=.03), dict(p_q=.5, p_attr=.1, exc=.3), dict(p_q=.4, p_item=.25, p_closure=.2, p_attr=.05),
            dict(p_q=.5, p_macro=.25, p_attr=.05, replace=.7), dict(p_q=.35, depth=6, stmts=3, p_attr=.02),
            dict(p_q=.4, p_attr=.08, nightly=.15)],
    "P03": [dict(p_q=.1, p_attr=.05, p_ret=.2, p_closure=.2), dict(p_q=.15, p_attr=.3, p_ret=.2,
             attr_kinds=("tails", "ignore", "results", "method")), dict(p_q=.1, p_attr=.2, p_item=.2,
             attr_kinds=("tails", "ignore", "results", "targets", "skip")), dict(p_q=.3, p_attr=.2, exc=.4, replace=.8,
             attr_kinds=("tails", "ignore", "results", "method"))],
    "P04": [dict(p_attr=.35, attr_kinds=("skip", "skip_all", "method")), dict(p_attr=.25, attr_kinds=("skip",), p_item=.2),
            dict(p_attr=.3, attr_kinds=("skip", "skip_all", "targets", "bind"), p_closure=.2),
            dict(p_attr=.2, attr_kinds=("skip_all", "skip"), depth=5, p_root_attr=.1),
            dict(p_attr=.25, attr_kinds=("skip", "skip_all"), nightly=.2)],
    "P05": [dict(p_attr=.35), dict(p_attr=.35, p_clash=.5, p_macro=.2), dict(p_attr=.5, depth=5, stmts=3), dict(p_attr=.4, attr_kinds=("bind", "method", "results", "tails")),
            dict(p_attr=.35, p_item=.25, p_closure=.15, attr_kinds=("method", "targets", "ignore", "macros", "bind", "tails"))],
    "P06": [dict(p_attr=.35, attr_kinds=("targets", "targets", "method"), p_ret=.15),
            dict(p_attr=.2, attr_kinds=("targets",), p_closure=.2, p_q=.4), dict(p_attr=.3, attr_kinds=("targets", "skip", "results"), p_ret=.2)],
    "P07": [dict(p_macro=.45, p_attr=.1), dict(p_macro=.4, p_attr=.3, attr_kinds=("macros", "method", "skip", "macros")),
            dict(p_macro=.4, p_item=.25, p_attr=.15, other_attrs=.15), dict(p_macro=.5, p_q=.5, layout=.2, unicode=True)],
    "P08": [dict(layout=.5, labels=LINE, n_labels=3, p_attr=.1, other_attrs=.3), dict(layout=.7, unicode=True, labels=LINE, n_labels=3, p_attr=.15, exc=.2),
            dict(layout=.4, labels=LINE, n_labels=2, so=.4, replace=.5, p_attr=.3), dict(layout=.3, unicode=True, labels=LINE, p_macro=.3),
            dict(layout=.4, labels=LINE, n_labels=3, p_ret=.25, p_closure=.2, other_attrs=.3)],
    "P09": [dict(p_q=.5, p_attr=.1, labels=CNT, stmts=6), dict(p_item=.25, p_closure=.2, labels=CNT, p_attr=.1),
            dict(labels=CNT, p_attr=.2, attr_kinds=("skip", "skip_all", "targets")), dict(labels=CNT, p_macro=.25, p_ret=.2, exc=.3)],
    "P10": [dict(labels=FNL, n_labels=2, p_item=.25, p_attr=.05), dict(labels=FNL, n_labels=2, p_closure=.3, p_attr=.05),
            dict(labels=FNL, n_labels=2, p_item=.2, p_closure=.2, p_macro=.25), dict(labels=FNL, n_labels=2, p_closure=.25, p_item=.2, depth=5, layout=.2)],
    "P11": [dict(labels=SRC, n_labels=1, expr_label=.4, p_q=.4, p_attr=.2), dict(labels=SRC, n_labels=1, p_attr=.1, layout=.3, expr_label=.3),
            dict(labels=SRC, n_labels=1, exc=.3, replace=.5, so=.3, expr_label=.3, p_attr=.3), dict(labels=SRC, n_labels=1, p_macro=.25, p_ret=.2, other_attrs=.15)],
    "P12": [dict(p_attr=.4, attr_kinds=("bind", "bind", "method")), dict(p_attr=.5, attr_kinds=("bind",), p_item=.2, p_closure=.2),
            dict(p_attr=.4, attr_kinds=("bind", "method", "targets", "skip"), depth=5)],
    "P13": [dict(p_attr=.5, so=.8, attr_kinds=("method",), replace=.3, depth=5), dict(p_attr=.5, so=.8, attr_kinds=("method", "bind", "targets"), replace=.6, weak=0),
            dict(p_attr=.5, so=.7, attr_kinds=("method", "skip"), exc=.3, replace=.4, p_closure=.2)],
    "P15": [dict(p_attr=.15), dict(p_attr=.05, p_closure=.2, p_ret=.15), dict(p_attr=.1, p_macro=.2),
            dict(p_attr=.25, attr_kinds=("targets", "tails", "skip"))],
    "P18": [dict(p_bad=.05, p_attr=.15, depth=3), dict(p_unbound=.25, p_attr=.2, depth=3),
            dict(p_bad=.03, p_macro=.4, p_closure=.2, attr_kinds=("macros", "skip", "method"), depth=3),
            dict(p_bad=.04, p_item=.3, p_attr=.1, other_attrs=.2, depth=4), dict(p_unbound=.2, exc=.3, replace=.6, p_attr=.3,
            attr_kinds=("method", "skip", "skip_all", "targets", "bind"))],
    "P17": [dict(p_attr=.15, depth=3, stmts=2), dict(p_attr=.1, p_item=.2, depth=3, stmts=2)],
    "P14": [dict(exc=.5, replace=.5, p_attr=.2), dict(weak=1.0, p_closure=.2, p_ret=.2, p_attr=.05, replace=.1),
            dict(exc=.6, replace=.2, so=.4, p_attr=.3, attr_kinds=("method",)), dict(exc=.4, p_macro=.2, p_q=.5, p_attr=.15)],
}


# what hooq is built with by default, and with parts of it only
DEFAULT = ("anyhow", "eyre", "log", "tracing")
PARTS = [("log",), ("anyhow", "tracing"), ("consume", "eyre")]


def items(seed, variants, n, name, per=40, features=walk.C.FULL):
    """Cases of `per' random items each."""
    cases = []
    for i in range((n + per - 1) // per):
        v = variants[i % len(variants)]
        rng = random.Random(f"{name}/{seed}/{i}")
        o = opts(**v)
        txt = "".join(gen.item(rng, o, f"i{k}") for k in range(per)) + "fn main() {}\n"
        cases.append(walk.Case(f"{name}{i}", {"main.rs": txt}, features=features))
    return cases


def deep(seed, variants, n, name, per=10, depth=13):
    """As items(), of code nested deep, with attributes on much of the way."""
    vs = [dict(v, deep=depth - 4 * (i % 2), p_attr=[.5, .25][i % 2], stmts=1, layout=v.get("layout", 0) / 2, p_item=0) for i, v in enumerate(variants)]
    return items(seed, vs, n, name, per)


def files(seed, variants, n, name, per=24):
    """As items(), spread over the files of a crate with odd names and line ends."""
    cases = []
    for i in range((n + per - 1) // per):
        rng = random.Random(f"{name}/{seed}/{i}")
        o = opts(**variants[i % len(variants)])
        k = iter(range(per))
        mk = lambda: "".join(gen.item(rng, o, f"i{next(k)}") for _ in range(per // 6))
        fs = {"src/main.rs": mk() + 'mod a;\nmod b { ' + mk() + ' pub mod c; }\n#[path = "../other dir/z-\u00e9.rs"]\nmod z;\nfn main() {}\n',
              "src/a/mod.rs": "\n\n" + mk() + "mod deep;\n",
              "src/a/deep.rs": mk().replace("\n", "\r\n"),
              "src/b/c.rs": ("\ufeff" if i % 2 else "") + mk(),
              "src/../other dir/z-\u00e9.rs": "// first\n/* second */ " + mk()}
        # the crate's root as rustc is told it, and every path after it
        pre = ["", "", "./", "", ".//", "./src/./../"][i % 6]
        cases.append(walk.Case(f"{name}{i}", {pre + p: t for p, t in fs.items()}, main=pre + "src/main.rs"))
    return cases


def far(seed, variants, n, name):
    """Targets on lines and in columns far beyond usual ones."""
    cases = []
    for i in range(n):
        rng = random.Random(f"{name}/{seed}/{i}")
        o = opts(**dict(variants[i % len(variants)], stmts=3))
        txt = "\n" * rng.choice([250, 32764, 65530, 131068]) + "".join(
            gen.item(rng, o, f"i{k}").replace("\nfn ", "\n" + " " * rng.choice([0, 120, 250, 32764, 65532]) + "fn ", 1) for k in range(8))
        cases.append(walk.Case(f"{name}{i}", {"main.rs": txt + "fn main() {}\n"}))
    return cases


def long_fns(seed, n, name):
    """Functions with well over a hundred targets of each kind."""
    cases = []
    for i in range(n):
        rng = random.Random(f"{name}/{seed}/{i}")
        txt = ""
        for k in range(2):
            o = opts(labels=CNT, p_attr=.02, stmts=1, depth=2, p_item=0.02, p_closure=.0,
                     attr_kinds=("skip", "targets", "skip_all"))
            g = gen.Gen(rng, o)
            body = []
            for j in range(130):
                c = rng.random()
                if c < .5:
                    body.append(f"f({j})?;")
                elif c < .7:
                    body.append("if a { return Err(1); }")
                elif c < .9:
                    body.append("match b { A => Err(1), B => { Err(2)? ; Err(3) } };")
                else:
                    body.append(g.stmt(2).replace(gen.SP, " "))
            if rng.random() < .5:
                body = [f"g({j})?;" for j in range(rng.choice([105, 125, 215]))] + body
            if i == 0 and k == 0:
                body = ["q?;"] * 1016 + ["if a { return Err(1); }"] * 20
            txt += (f"#[::hooq::hooq]\n#[vcap::post(i{k})]\n#[hooq::method(.__vp(\"m1\", __f!(count, $count)))]\n"
                    f"fn f() -> Result<(), E> {{ {' '.join(body)} Ok(()) }}\n")
        cases.append(walk.Case(f"{name}{i}", {"main.rs": txt + "fn main() {}\n"}))
    return cases


TOPS = ["default", "log", "tracing", "anyhow", "eyre", "color_eyre", "hook", "mine", "my_flavor", "\u65e5\u672c", "r2"]
SUBS = ["error", "warn", "info", "deep", "sub", "debug"]
TRAITS = ["crate::tr::A", "crate::tr::deep::B", "::std::fmt::Write", "std::io::Read", "C", "::anyhow::Context",
          "r#try::T"]
TEXTS = ["42", '"s"', "a + b", "f(1)", "Lv::Warn", "|x| x", "vec![1]", "::log::Level::Warn"]
BUILTIN_SUBS = {"log": ["error", "warn", "info", "debug", "trace"], "tracing": ["error", "warn", "info", "debug", "trace"]}


def random_toml(rng, p=.4, so=0.0, bad=0.0):
    """Entries of a hooq.toml, and its text with the tables in any order. `so': share of methods that extend the
    method so far; `bad': of tables with something in them that must be rejected."""
    n = [0]

    def table(path, depth, bound):
        t = {}
        if rng.random() < p:
            t["targets"] = [rng.choice(gen.TARGETS).strip('"') for _ in range(rng.randint(0, 3))]
        if rng.random() < p:
            t["tails"] = [("!" if rng.random() < .25 else "") + rng.choice(gen.NAMES) for _ in range(rng.randint(0, 3))]
        if rng.random() < p:
            t["ignore"] = [rng.choice(gen.NAMES) for _ in range(rng.randint(0, 2))]
        if rng.random() < p:
            t["results"] = [rng.choice(gen.RTNAMES) for _ in range(rng.randint(0, 3))]
        if rng.random() < p:
            t["macros"] = rng.random() < .5
        if rng.random() < p:
            t["traits"] = [rng.choice(TRAITS) for _ in range(rng.randint(0, 3))]
        if rng.random() < p:
            t["bind"] = [(b, rng.choice(TEXTS)) for b in rng.sample(["level", "flag", "tagx"], rng.randint(1, 2))]
        bound = bound | {b for b, _ in t.get("bind", [])}
        if rng.random() < p + .2:
            n[0] += 1
            fs = "".join(f", __f!({b}, ${b})" for b in sorted(bound) if rng.random() < .6)
            fs = "__f!(count, $count)" + fs
            ex = "!" if rng.random() < .15 else ""
            t["method"] = (f'.__vp("t{n[0]}", {fs}){ex}' if rng.random() < .7 else f'__vw("t{n[0]}", {fs}, $expr){ex}')
            if rng.random() < so:
                t["method"] = rng.choice([f'.__vp("t{n[0]}", {fs}).$so_far', f'.$so_far.__vp("t{n[0]}", {fs})']) + ex
        if rng.random() < bad:
            t["targets"] = [rng.choice(["?", "all"]), rng.choice(["Return", "", "tail", "ALL", " return"])]
        if depth < 6 and rng.random() < (.55 if depth < 3 else .3):
            names = rng.sample(SUBS, rng.randint(1, 2))
            if rng.random() < bad * .3:
                names.append(rng.choice(["empty", ""]))
            # a preset's own sub flavors do not take over their parent's bindings
            t["sub"] = [(x, table(path + (x,), depth + 1,
                                  bound if x not in BUILTIN_SUBS.get(path[0], []) or depth > 1 else
                                  {"level"})) for x in names]
        return t
    entries = []
    for x in rng.sample(TOPS, rng.randint(1, 4)) + ([rng.choice(["empty", ""])] if rng.random() < bad * .5 else []):
        b = {"level"} if x in BUILTIN_SUBS else set()
        entries.append((x, table((x,), 1, b)))
    parts = []

    def flat(es, prefix):
        for x, t in es:
            parts.append(walk.toml_text([(x, {k: v for k, v in t.items() if k != "sub"})], prefix))
            flat(t.get("sub", []), prefix + (x,))
    flat(entries, ())
    rng.shuffle(parts)
    return entries, "\n".join(parts)


def resolve(entries):
    """path -> (method text or "", bindings) of every flavor, for the generator's use only."""
    base = {x: ["", set(), {}] for x in ["default", "hook", "anyhow", "eyre", "color_eyre", "log", "tracing", "empty"]}
    for x in ("log", "tracing"):
        base[x] = ["", {"level"}, {y: ["", {"level"}, {}] for y in BUILTIN_SUBS[x]}]
    base["empty"][0] = "empty"

    def overlay(fl, es, parent):
        for x, t in es:
            old = fl[x] if x in fl else [parent[0], set(parent[1]), clone(parent[2])]
            new = [t.get("method", old[0]), old[1] | {b for b, _ in t.get("bind", [])}, old[2]]
            fl[x] = new
            overlay(new[2], t.get("sub", []), [new[0], new[1], clone(new[2])])

    def clone(d):
        return {k: [v[0], set(v[1]), clone(v[2])] for k, v in d.items()}
    overlay(base, entries, ["", set(), {}])
    out = {}

    def go(d, pre):
        for x, v in d.items():
            out[pre + (x,)] = (v[0], v[1])
            go(v[2], pre + (x,))
    go(base, ())
    return out


def mode_of(m):
    return "i" if m.startswith((".__vp", ".$so")) else "r" if m.startswith("__vw") else "p"


def needs_of(m):
    return (["so"] if "$so_far" in m else []) + [b for b in ("level", "flag", "tagx") if f"${b}" in m]


def flavored(seed, variants, n, name, per=30, wrapped=False, traits=.3, so=0.0, bad=0.0, unknown=0.0, tracked=False, roots=None, features=walk.C.FULL):
    """`tracked': use flavors with methods of ours only. Items under random hooq.toml files; `unknown': share of items with a flavor that does not exist."""
    cases = []
    for i in range((n + per - 1) // per):
        rng = random.Random(f"{name}/{seed}/{i}")
        entries, src = random_toml(rng, .6 if tracked else rng.choice([.2, .4, .7]), so, bad) if i % 12 or tracked else ([], "")
        fl = {p: x for p, x in resolve(entries).items() if "" not in p}
        v = dict(variants[i % len(variants)])
        v["flavors"] = [(p, mode_of(m), sorted(b), needs_of(m)) for p, (m, b) in sorted(fl.items())
                        if not tracked or mode_of(m) in "ir"] or [(("empty",), "p", [], [])]
        own = [p for p in fl if p[0] in dict(entries)]
        o = opts(**v)
        txt = "mod tr { pub trait A {} pub mod deep { pub trait B {} } }\n"
        for k in range(per):
            root, args = ("default",), []
            if rng.random() < .8:
                root = rng.choice(roots or sorted(own if own and rng.random() < .75 else fl))
                if rng.random() < unknown:
                    root = rng.choice([root + ("nope",), ("nope",), root[::-1] + ("x",), ("Default",), ("empty", "x"), root + root])
                mk = lambda s: gen.MO + "l" + s + gen.MC if o.marks else s
                args.append(rng.choice(["::".join(root), 'flavor = ' + mk('"' + ".".join(root) + '"'), 'flavor = ' + mk('"' + "::".join(root) + '"')]))
            while rng.random() < traits and len(args) < 4:
                args.insert(rng.randint(0, len(args)), rng.choice(["trait_use", "trait_uses"]) + "(" +
                            ", ".join(rng.choice(TRAITS) for _ in range(rng.randint(0, 3))) + ")")
            ra = "(" + ", ".join(args) + rng.choice(["", ","] if args else [""]) + ")" if args or rng.random() < .2 else ""
            m, b = fl.get(root, (".__vp", ()))
            mode = mode_of(m)
            own_method = None if mode == "p" or rng.random() < .15 else mode
            t = gen.item(rng, o, f"i{k}", ra, own_method, sorted(b))
            txt += f"mod w_i{k} {{ {t} }}\n" if wrapped else t
        cases.append(walk.Case(f"{name}{i}", {"main.rs": txt + "fn main() {}\n"}, toml=entries, toml_src=src or None,
                               wrapped=wrapped, features=features))
    return cases
