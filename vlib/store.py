"""HooqStore: histories of expansions, played in one rustc process each."""
import concurrent.futures, json, os, random, re
from . import common as C
from .forms import flatten

REP = '''#[::hooq::hooq(empty)] #[vcap::post({x})] #[hooq::method(.r($bindings, $count, $fn_name, $fn_sig, $expr))]
#[hooq::hook_targets("all")] #[hooq::tail_expr_idents("Err", "None")] #[hooq::result_types("R")]
#[hooq::z = 1] #[hooq::a = 2] #[hooq::m = 3] #[hooq::b = f(1)] #[hooq::y = "s"] #[hooq::c = 6] #[hooq::k = 7]
fn rep(v: u8) -> R {{ let c = |q: u8| -> R {{ q?; Err(1) }}; fn inner() -> R {{ a?; b }} if a? {{ return b?; }} m!(x?, y?); a?.b?; c(v) }}
'''


def toml_of(p, c):
    mk = lambda s: f'method = \'.mk("{p} {s}")\'\n'
    if c == "v1":
        return "[default]\n" + mk("v1")
    if c == "v2":
        return "[default]\n" + mk("v2") + "[mine]\n" + mk("v2 mine")
    if c == "v3":
        return "[mine]\n" + mk("v3 mine") + "[anyhow]\n" + mk("v3 anyhow")
    return {"syntax": "[default\n" + mk("bad"), "kind": "[default]\n" + mk("bad") + 'hook_targets = ["retur"]\n',
            "empty": "[empty]\n" + mk("bad")}[c]


def cargo_of(m):
    dep = {"plain": 'hooq = "1"', "renamed": 'hq = { package = "hooq", version = "1" }', "macros": 'hooq-macros = "1"',
           "itself": ""}[m]
    return f'[package]\nname = "{"hooq" if m == "itself" else "x"}"\nversion = "0.1.0"\n[dependencies]\n{dep}\n'


def histories(res, seed, n, depth):
    rc, out = C.tlc("HooqStore", cfg="HooqStoreGen.cfg", workers=1,
                    args=["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed)])
    hs = [json.loads(json.loads(l)[5:]) for l in out.split("\n") if l.startswith('"HIST ')]
    # TLC looks at every successor of the last step but one: keep one of each
    hs = list({json.dumps(h[:-1]): h for h in hs}.values())
    if rc != 0 or not hs:
        raise C.CheckError("TLC failed on HooqStoreGen:\n" + out[-3000:])
    m = re.search(r"number of states generated: (\d+)", out)
    res.transitions += int(m.group(1)) if m else 0
    return hs


def raw(s):
    return 'r##"' + s + '"##'


def play(job):
    name, base, hist = job
    art = C.build()
    d = os.path.join(base, name)
    os.makedirs(d)
    dirs = {p: d if p == "." else os.path.join(d, p) for p in ("w1/app", "w2/app", "w1/app/sub", ".")}
    for x in dirs.values():
        os.makedirs(x, exist_ok=True)
    src = ["#![allow(unused)]\n"]
    want = {}
    for i, o in enumerate(hist):
        op, p, x = o["op"], o["p"], o["x"]
        if op == "go":
            src.append('vcap::env!("CARGO_MANIFEST_DIR"' + ("" if p == "." else f', "{dirs[p]}"') + ");\n")
        elif op in ("toml", "cargo"):
            f = os.path.join(dirs[p], "hooq.toml" if op == "toml" else "Cargo.toml")
            txt = None if x in ("none", "absent") else toml_of(p, x) if op == "toml" else cargo_of(x)
            src.append(f'vcap::write!("{f}"' + ("" if txt is None else ", " + raw(txt)) + ");\n")
        else:
            want[f"e{i}"] = o
            if x == "rep":
                src.append(REP.format(x=f"e{i}"))
            else:
                src.append(f"#[::hooq::hooq{'' if x == 'default' else '(' + x + ')'}] #[vcap::post(e{i})] fn f() {{ a?; }}\n")
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write("".join(src) + "#[vcap::post(control)] fn control() {}\nfn main() {}\n")
    cap = os.path.join(d, "cap.jsonl")
    rc, diags, _ = C.rustc(art, d, "main.rs", os.path.join(d, "out.rmeta"), None, cap)
    got = {}
    if os.path.exists(cap):
        for l in open(cap, encoding="utf-8"):
            o = json.loads(l)
            got.setdefault(o["post"], []).append(o["ts"])
    if "control" not in got:
        raise C.CheckError(f"{d}: no capture at all: {[g['message'] for g in diags][:3]}")
    return d, want, got, [g["message"] for g in diags if g.get("level") == "error"]


NAMES = ("hooq", "hq", "hooq_macros")


def seen(x, caps):
    """What an expansion shows of the project it belongs to."""
    if not caps:
        return "error"
    fl = flatten(caps[0])
    mk = [fl[i + 2] for i in range(len(fl) - 2) if fl[i] == "mk" and fl[i + 1] == "("]
    if mk:
        return mk[0].strip('"')
    if x in ("empty", "rep"):
        return "same"
    names = {t for i, t in enumerate(fl) if t in NAMES and fl[i - 1] == ":" and fl[i - 2] == ":"}
    return "builtin " + "+".join(sorted(names))


def check(res, tier, seed, base):
    k = {"quick": 1, "thorough": 20}[tier]
    rc, out = C.tlc("HooqStore")
    if rc != 0:
        raise C.CheckError("HooqStore does not hold:\n" + out[-3000:])
    gen, dist = C.tlc_counts(out)
    res.states += dist
    res.transitions += gen
    hs = histories(res, seed, 250 * k, 60)
    first = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for hist, (d, want, got, errs) in zip(hs, ex.map(play, [(f"h{i}", base, h) for i, h in enumerate(hs)])):
            res.traces += 1
            res.add(expansions=len(want), file_changes=sum(o["op"] in ("toml", "cargo") for o in hist),
                    switches=sum(o["op"] == "go" for o in hist))
            for x, o in want.items():
                s = seen(o["x"], got.get(x))
                what = None
                if s != o["out"]:
                    what = f"shows {s}, must show {o['out']}"
                elif len(got.get(x, [])) > 1:
                    what = "expanded more than once"
                elif s == "same":
                    t = json.dumps(got[x][0])
                    if first.setdefault(o["x"], t) != t:
                        what = "other tokens than for the same item before"
                if what:
                    res.viols.append({"what": [what, o], "history": hist, "messages": errs[:5], "case": d})
                    break
    if not res.samples:
        res.samples.append({"history": hs[0][:20]})
