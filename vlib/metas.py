"""HooqMeta: what hooks are given at run time."""
import concurrent.futures, json, os, random, subprocess
from . import common as C
from .runs import Out, compile

# text, type, value
TEXTS = [("7u8", "u8", "7"), ("7", "i32", "7"), ("-3i64", "i64", "-3"), ("9usize", "usize", "9"), ("2.5", "f64", "2.5"), ("1.5f32", "f32", "1.5"),
         ("true", "bool", "true"), ("'c'", "char", "'c'"), ("()", "()", "()"), ('"a text"', "&'staticstr", '"a text"'),
         ('String::from("s")', "String", '"s"'), ("Some(3u32)", "Option<u32>", "Some(3)"), ("Some(3)", "Option<i32>", "Some(3)"),
         ("(1u8, 'd')", "(u8,char)", "(1, 'd')"), ("[1u8, 2]", "[u8;2]", "[1, 2]"), ("[1u32, 2, 3]", "[u32;3]", "[1, 2, 3]"),
         ("vec![1u8]", "Vec<u8>", "[1]"), ("K(3)", "K", "K(3)"), ("G(1u8)", "G<u8>", "G(1)"), ("G(1u32)", "G<u32>", "G(1)"),
         ("Box::new(4u8)", "Box<u8>", "4"), ("{ let a = 1u8; a + 1 }", "u8", "2"), ('b"ab"', "&'static[u8;2]", "[97, 98]"),
         ("Ok::<u8, String>(3)", "Result<u8,String>", "Ok(3)"), ("std::rc::Rc::new(5u8)", "std::rc::Rc<u8>", "5"),
         ("1u8 as u64", "u64", "1"), ("match 3 { 3 => 'x', _ => 'y' }", "char", "'x'"), ("if true { 1i8 } else { 2 }", "i8", "1")]
LOCAL = [("x", 0), ("x + 10", 10), ("(x + 1) + 1", 2)]
NAMES = ["a", "b", "bnd", "level", "k1", "meta", "line_no", "_x", "__y", "Upper", "UP_2", "\u540d"]
# names that mean something else elsewhere: variables of templates, and (not as `hooq::NAME = ..') hooq's own words
VARIABLES = ["line", "col", "column", "path", "file", "source", "expr", "count", "nth", "bindings", "vars", "so_far", "fn_name", "fn_sig",
             "hooq_meta", "hooqmeta", "sofar"]
WORDS = ["skip", "skip_all", "method", "flavor", "hook_targets", "binding", "var", "hook_in_macros", "result_types"]
# only in a hooq.toml
KEYS = ["my-key", "type", "_", "_k", "", "a.b", "\u65e5\u672c", "self", "1"]


def squeeze(s):
    return "".join(s.split())


class Gen:
    def __init__(self, rng, i, flavors):
        self.r, self.i, self.flavors = rng, i, flavors
        self.n = 0

    def bind(self, names=NAMES):
        r = self.r
        w = names is not NAMES or r.random() < .6
        n = r.choice(names) if w else r.choice(r.choice([VARIABLES, WORDS]))
        t = r.choice(LOCAL)[0] if r.random() < .3 else r.choice(TEXTS)[0]
        return (f"#[hooq::{n} = {t}]" if r.random() < .6 and n not in WORDS and n not in ("bindings",) else
            f"#[hooq::{r.choice(['binding', 'var'])}({n} = {t})]"), {"s": "bind", "n": n, "t": squeeze(t)}

    def attrs(self, p=.4, root=False):
        r = self.r
        txt, at = "", []
        while r.random() < p:
            k = r.random()
            if k < .7 or root:
                t, a = self.bind()
            elif k < .85:
                f = r.choice(self.flavors)["n"]
                w = r.choice(["flavor", "bindings"])
                t, a = f"#[hooq::{w} = {r.choice([f, json.dumps(f)])}]", {"s": "flavor", "w": w, "p": [f]}
            else:
                m, mt = self.method()
                t, a = f"#[hooq::method({mt})]", {"s": "method", "m": 1}
            txt += t + " "
            at.append(a)
        return txt, at

    def method(self):
        r = self.r
        v = "($line, $col, $path, $file, stringify!($source), $count)"
        k = r.randint(0, 4)
        if k == 0:
            return "m", f".m($hooq_meta, {v}, x)"
        if k == 1:
            return "mf", f".mf(|| $hooqmeta, {v}, x)"
        if k == 2:
            return "bs", f".bs($bindings, {v}, x)"
        if k == 3:
            return "bs", f".bs($vars, {v}, x)"
        n = self.always
        return "n", f'.n(${n}, "{n}", $hooq_meta, {v}, x)'

    def item(self, o):
        r = self.r
        f = r.choice(self.flavors)
        self.root = f["n"]
        at, more = self.attrs(.5, root=True)
        # a binding that is in force everywhere
        t, a = self.bind(["every"])
        self.always = "every"
        m = self.method()[1]
        o(f"#[::hooq::hooq({self.root})] #[hooq::method({m})] {t} {at}\n")
        o(f"fn f{self.i}() -> Result<u32, String> {{\n    let mut x = 1u32;\n")
        self.o = o
        ev = [{"e": "o", "at": [{"s": "method", "m": 1}, a] + more}]
        for _ in range(r.randint(2, 5)):
            ev += self.stmt(3)
        o("    Ok(x)\n}\n")
        return ev + [{"e": "c"}]

    def q(self, d, at=True):
        """A hooked expression."""
        r, o = self.r, self.o
        txt, a = self.attrs(.15) if at else ("", [])
        o(txt)
        start = len(o.t)
        ev = []
        clean = True
        if d > 0 and r.random() < .3:
            o("two(")
            ev += self.q(d - 1)
            o(", ")
            ev += self.q(d - 1)
            o(")")
            clean = "#[" not in "".join(o.t[start:])
        elif r.random() < .15:
            o("id!(probe(1))")
        elif r.random() < .2:
            o(r.choice(["r#try(7)", "vrt::metas::r#try(8)", 'text("a  b\\n\\u{e9}")', 'text(r#"a "b" c"#)', "text(\"\u00e9'\\\"\")", "probe(0x1f_u32)", "{ probe(3) }",
                        "probe(if true { 1 } else { 2 })", "probe([1, 2,][1])", "(probe)(4)"]))
        else:
            o(f"probe({r.randint(1, 99)})")
        if r.random() < .2:
            o("\n        ")
        line = o.line
        o("?")
        self.n += 1
        src = squeeze("".join(o.t[start:])) if clean else ""
        ev.append({"e": "q", "line": line, "n": self.n, "source": src})
        return [{"e": "o", "at": a}] + ev + [{"e": "c"}] if a else ev

    def stmt(self, d):
        r, o = self.r, self.o
        k = r.randint(0, 9)
        if k == 0:
            o("    x += 1;\n")
            return []
        txt, at = self.attrs(.3)
        o("    " + txt)
        if k <= 4 or d == 0:
            lead = r.choice(["", "let _v = ", "let _v: u32 = "])
            o(lead)
            ev = self.q(2, at=lead != "")
            o(";\n")
        elif k == 5:
            o("{\n")
            ev = [e for _ in range(r.randint(1, 3)) for e in self.stmt(d - 1)]
            o("    }\n")
        elif k == 6:
            o("for _ in 0..2 {\n")
            ev = [e for _ in range(r.randint(1, 2)) for e in self.stmt(d - 1)]
            o("    }\n")
            ev = ev + ev
        elif k == 7:
            o("let _v = vec![")
            ev = self.q(1)
            o(", ")
            ev += self.q(1)
            o("];\n")
        elif k == 8:
            o("let c = || -> Result<u32, String> {\n        let mut x = 5u32;\n")
            body = [e for _ in range(r.randint(1, 2)) for e in self.stmt(d - 1)]
            o("        Ok(x)\n    };\n")
            inner = [{"e": "o", "at": at}] + body + [{"e": "c"}]
            o("    c()")
            line = o.line
            o("?;\n")
            self.n += 1
            return inner + [{"e": "q", "line": line, "n": self.n, "source": "c()?"}]
        else:
            o("if ")
            ev = self.q(1, at=False)
            o(" > 0 {\n")
            ev += [e for _ in range(r.randint(1, 2)) for e in self.stmt(d - 1)]
            o("    }\n")
        return [{"e": "o", "at": at}] + ev + [{"e": "c"}] if at else ev


def play(job):
    name, base, seed, n = job
    rng = random.Random(f"metas/{seed}/{name}")
    d = os.path.join(base, name)
    os.makedirs(d)
    art = C.build()
    flavors = []
    toml = ""
    v = "($line, $col, $path, $file, stringify!($source), $count)"
    for i in range(3):
        bs = {}
        for _ in range(rng.randint(0, 4)):
            bs[rng.choice(rng.choice([NAMES, NAMES, VARIABLES, WORDS, KEYS]))] = rng.choice(TEXTS)[0]
        flavors.append({"n": f"f{i}", "b": [{"n": k, "t": squeeze(t)} for k, t in bs.items()]})
        toml += f"[f{i}]\nmethod = '.m($hooq_meta, {v}, x)'\n[f{i}.bindings]\n" + "".join(f"{json.dumps(k, ensure_ascii=False)} = {json.dumps(t)}\n" for k, t in bs.items())
    with open(os.path.join(d, "hooq.toml"), "w") as f:
        f.write(toml)
    o = Out()
    o("#![feature(stmt_expr_attributes)]\n#![allow(warnings)]\nuse vrt::metas::*;\nuse vrt::id;\n")
    recs = []
    for i in range(n):
        g = Gen(rng, i, flavors)
        ev = g.item(o)
        recs.append({"id": f"f{i}", "root": g.root, "flavors": flavors, "ev": ev})
    o("fn main() {\n" + "".join(f'    vrt::ev("run f{i}"); f{i}().unwrap();\n' for i in range(n)) + "}\n")
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(o.text())
    exe = os.path.join(d, "exe")
    rc, diags, _ = compile(art, d, "main.rs", exe, manifest=d)
    if rc != 0:
        return d, recs, None, [(g["message"], [s["line_start"] for s in g["spans"]]) for g in diags if g.get("level") == "error"][:6]
    r = subprocess.run([exe], cwd=d, capture_output=True, timeout=100)
    os.remove(exe)
    obs = {}
    cur = None
    for l in r.stderr.decode(errors="replace").splitlines():
        if l.startswith("~run "):
            cur = obs.setdefault(l[5:], [])
        elif l.startswith("~{"):
            cur.append(json.loads(l[1:]))
    bad = [] if r.returncode == 0 else [(f"exit code {r.returncode}", [])]
    texts = [{"t": squeeze(t), "ty": ty, "v": v, "x": False, "k": 0} for t, ty, v in TEXTS] + \
            [{"t": squeeze(t), "ty": "u32", "v": "", "x": True, "k": k} for t, k in LOCAL]
    for rec in recs:
        got = obs.get(rec["id"], [])
        qs = [e for e in rec["ev"] if e["e"] == "q"]
        if len(got) != len(qs):
            bad.append((f"{rec['id']}: hooks called {len(got)} times, must be {len(qs)}", []))
        out = []
        it = iter(got)
        for e in rec["ev"]:
            if e["e"] == "q":
                ob = next(it, None)
                if ob is None:
                    break
                e = dict(e, o=ob)
            out.append(e)
        rec["ev"] = out
        rec["texts"] = texts
    return d, recs, obs, bad


def check(res, tier, seed, base):
    k = {"quick": 1, "thorough": 15}[tier]
    jobs = [(f"m{i}", base, seed, 25) for i in range(16 * k)]
    recs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for d, rs, obs, bad in ex.map(play, jobs):
            if bad:
                res.viols.append({"what": ["programs with metadata do not compile or run as they must", bad], "case": d})
            if obs is not None:
                recs += [dict(r, case=d) for r in rs]
    out, bad = C.tlc_records("HooqMeta", recs, {}, "RECS", 600)
    if bad is not None:
        res.viols.append({"what": [C.ODD], "id": recs[bad]["id"], "case": recs[bad]["case"]})
    gen, dist = C.tlc_counts(out)
    res.states += dist
    res.transitions += gen
    res.traces += len(recs)
    res.add(meta_programs=len(recs), hooks_at_run_time=sum(e["e"] == "q" for r in recs for e in r["ev"]),
            bindings_retrieved=sum(len(e["o"]["b"]) for r in recs for e in r["ev"] if e["e"] == "q"))
    for v in C.tlc_viols(out):
        r = recs[v["rec"] - 1]
        res.viols.append({"what": [v["what"], v["bind"]], "event": r["ev"][v["ev"] - 1], "id": r["id"], "case": r["case"]})
