"""HooqForms: every form within the bounds, put to the real macro."""
import concurrent.futures, json, os, random
from . import common as C

# where hooq reads attributes; @ is the attribute
PLACES = {
    "fn": "@ fn f() { a?; }",
    "let": "fn f() { @ let x = a?; }",
    "let else": "fn f() { @ let Some(x) = a else { return b; }; }",
    "call stmt": "fn f() { @ g(a?); }",
    "method call": "fn f() { @ a.g(1); }",
    "q": "fn f() { let x = @ a?; }",
    "q stmt": "fn f() { @ a?; }",
    "return": "fn f() { @ return Err(1); }",
    "return bare": "fn f() { @ return; }",
    "tail": "fn f() -> Result<(), E> { @ Err(1) }",
    "closure": "fn f() { let c = @ |x| { x? }; }",
    "closure arg": "fn f() { g(@ |x| x?); }",
    "async": "fn f() { let c = @ async { x? }; }",
    "block": "fn f() { @ { a?; } }",
    "unsafe": "fn f() { let x = @ unsafe { a? }; }",
    "if": "fn f() { @ if a { b?; } }",
    "match": "fn f() { @ match a { _ => b?, } }",
    "loop": "fn f() { @ loop { b?; } }",
    "while": "fn f() { @ while a { b?; } }",
    "for": "fn f() { @ for x in a { b?; } }",
    "macro stmt": "fn f() { @ m!(a?); }",
    "macro expr": "fn f() { let x = @ m!(a?, 1); }",
    "in macro": "fn f() { m!(@ g(a)?, 1); }",
    "field value": "fn f() { let x = S { x: @ g(1) }; }",
    "await": "fn f() { let x = @ a.await; }",
    "nested fn": "fn f() { @ fn g() { a?; } }",
    "nested const": "fn f() { @ const C: u8 = 1; }",
    "impl": "@ impl S { fn g(&self) { a?; } }",
    "impl fn": "impl S { @ fn g(&self) { a?; } }",
    "impl const": "impl S { @ const C: u8 = g(1); }",
    "trait": "@ trait T { fn g(&self) { a?; } }",
    "trait fn": "trait T { @ fn g(&self) { a?; } }",
    "mod": "@ mod m { fn g() { a?; } }",
    "mod fn": "mod m { @ fn g() { a?; } }",
    "const": "@ const C: u8 = 1;",
    "static": "@ static C: u8 = 1;",
}


def enumerate_forms(res, base, tier):
    """Let TLC enumerate the forms; returns them."""
    out = os.path.join(base, "forms.ndjson")
    rc, txt = C.tlc("HooqForms", cfg="HooqFormsBig.cfg" if tier == "thorough" else None, env={"OUT": out})
    if rc != 0:
        raise C.CheckError("TLC failed on HooqForms:\n" + txt[-3000:])
    gen, dist = C.tlc_counts(txt)
    res.states += dist
    res.transitions += gen
    return [json.loads(l) for l in open(out)]


def attr_text(f):
    if f["form"] == "bare":
        return f"#[{f['name']}]"
    if f["form"] == "list":
        return f"#[{f['name']}({f['txt']})]"
    return f"#[{f['name']} = {f['txt']}]"


def flatten(ts):
    out = []
    for t in ts:
        if t[0] == "g":
            d = t[1]
            out += ([d] if d else []) + flatten(t[2]) + ([{"(": ")", "{": "}", "[": "]"}[d]] if d else [])
        else:
            out.append(t[1])
    return out


def in_mac(ts):
    """Tokens of the first mac!(..) in a token tree."""
    for i, t in enumerate(ts):
        if t == ["i", "mac"] and i + 2 < len(ts) and ts[i + 1][:2] == ["p", "!"] and ts[i + 2][0] == "g":
            return flatten(ts[i + 2][2])
    for t in ts:
        if t[0] == "g":
            r = in_mac(t[2])
            if r is not None:
                return r
    return None


def run(job):
    """One rustc run; returns id -> captured tokens."""
    name, base, items, toml = job
    art = C.build()
    d = os.path.join(base, name)
    os.makedirs(d)
    if toml is not None:
        with open(os.path.join(d, "hooq.toml"), "w") as f:
            f.write(toml)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write("".join(items) + "#[::hooq::hooq(empty)] #[vcap::post(control)] fn control() {}\nfn main() {}\n"
                if toml is None else "".join(items) + "#[vcap::post(control)] fn control() {}\nfn main() {}\n")
    cap = os.path.join(d, "cap.jsonl")
    rc, diags, _ = C.rustc(art, d, "main.rs", os.path.join(d, "out.rmeta"), d, cap)
    got = {}
    if os.path.exists(cap):
        for l in open(cap, encoding="utf-8"):
            o = json.loads(l)
            got.setdefault(o["post"], []).append(o["ts"])
    errs = [g["message"] for g in diags if g.get("level") == "error"]
    if "control" not in got and toml is not None:
        raise C.CheckError(f"{d}: no capture at all: {errs[:3]}")
    return got, errs


def fams(pid):
    return {"P18": ("template", "attr", "root", "toml"), "P12": ("template",), "P15": ("root", "toml")}[pid]


def check(res, pid, tier, seed, base, only=None):
    forms = enumerate_forms(res, base, tier)
    rng = random.Random(f"forms/{seed}")
    jobs, exp = [], {}
    per = 60
    want = only or fams(pid)

    def place(fam, items):
        for i in range(0, len(items), per):
            nm = f"{fam}{i}"
            part = items[i:i + per]
            jobs.append((nm, base, [x[1] for x in part], None))
            for x in part:
                exp[(nm, x[0])] = x[2:]

    n = 0

    def fresh():
        nonlocal n
        n += 1
        return f"i{n}"

    if "template" in want:
        over = [f for f in forms if f["fam"] == "template" and f["over"]]
        place("over", [(i := fresh(), f'#[::hooq::hooq(empty)] #[vcap::post({i})] #[hooq::bnd = 41] #[hooq::hook_targets("?")] #[hooq::method(.so_m(1))] '
               f'fn f() {{ #[hooq::method(.__vp("m", mac!({" ".join(f["txt"])})))] a?; }}\n', f, f["ok"], f["out"]) for f in over])
        flv = [f for f in forms if f["fam"] == "template" and not f["over"]]
        for i in range(0, len(flv), 40):
            toml, items, nm = "", [], f"tf{i}"
            for k, f in enumerate(flv[i:i + 40]):
                toml += (f'[f{k}]\nmethod = \'.__vp("m", mac!({" ".join(f["txt"])}))\'\nhook_targets = ["?"]\n'
                         f'bindings = {{ bnd = "41" }}\n')
                x = fresh()
                items.append(f'#[::hooq::hooq(f{k})] #[vcap::post({x})] fn f() {{ a?; }}\n')
                exp[(nm, x)] = (f, f["ok"], f["out"])
            jobs.append((nm, base, items, toml))
    if "attr" in want:
        items = []
        names = list(PLACES)
        for k, f in enumerate(x for x in forms if x["fam"] == "attr"):
            where = names if tier == "thorough" else rng.sample(names, 10)
            for p in where:
                x = fresh()
                at = attr_text(f)
                items.append((x, f"#[::hooq::hooq(log)] #[vcap::post({x})] " + PLACES[p].replace("@", at) + "\n",
                              dict(f, place=p), f["ok"], None))
        place("attr", items)
    if "root" in want:
        items = []
        for f in (x for x in forms if x["fam"] == "root"):
            x = fresh()
            args = f["sep"].join(f["txt"])
            items.append((x, f"#[::hooq::hooq({args})] #[vcap::post({x})] fn f() {{ a?; }}\n", f, f["ok"], None))
        place("root", items)
    if "toml" in want:
        for k, f in enumerate(x for x in forms if x["fam"] == "toml"):
            toml = f["txt"] + "\n" if f["table"] == "" else f"[{f['table']}]\n{f['txt']}\n"
            nm = f"toml{k}"
            ids, items = [fresh(), fresh(), fresh()], []
            roots = ["", "(empty)", "(" + f["table"].replace(".", "::") + ")" if f["table"] else "(hook)"]
            for x, r in zip(ids, roots):
                items.append(f"#[::hooq::hooq{r}] #[vcap::post({x})] fn f_{x}() {{ a?; }}\n")
                exp[(nm, x)] = (dict(f, root=r), f["ok"], None)
            jobs.append((nm, base, items, toml))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for job, (got, errs) in zip(jobs, ex.map(run, jobs)):
            for it in job[2]:
                x = it.split("vcap::post(")[1].split(")")[0]
                f, ok, out = exp[(job[0], x)]
                g = got.get(x, [])
                what = None
                if len(g) != (1 if ok else 0):
                    what = "accepted, must be rejected" if g else "rejected, must be accepted"
                elif ok and out is not None and in_mac(g[0]) != out:
                    what = f"the method became {in_mac(g[0])}, must be {out}"
                res.traces += 1
                res.add(**{"forms_" + f["fam"]: 1})
                if what:
                    res.viols.append({"what": [what, f], "item": it, "toml": job[3], "messages": errs[:5],
                                      "case": os.path.join(base, job[0])})
