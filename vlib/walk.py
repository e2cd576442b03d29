"""The expansion pipeline: annotated sources -> rustc -> traces -> TLC."""
import concurrent.futures, json, os, re, subprocess
from . import common as C

SPELL_T = {"method": "method", "targets": "hook_targets", "tails": "tail_expr_idents",
           "ignore": "ignore_tail_expr_idents", "results": "result_types", "macros": "hook_in_macros",
           "traits": "trait_uses"}


def tq(s):
    return json.dumps(s, ensure_ascii=False)


def toml_text(entries, prefix=()):
    """hooq.toml text of a list of (name, table) entries; a table is a dict with
    the keys of SPELL_T, "bind": [(n, text)], "sub": entries."""
    out = []
    for name, t in entries:
        path = prefix + (name,)
        out.append("[" + ".".join(tq(p) for p in path) + "]")
        for k, v in t.items():
            if k in ("bind", "sub"):
                continue
            if k == "macros":
                v = "true" if v else "false"
            elif isinstance(v, list):
                v = "[" + ", ".join(tq(x) for x in v) + "]"
            else:
                v = tq(v)
            out.append(f"{SPELL_T[k]} = {v}")
        if t.get("bind"):
            out.append("bindings = { " + ", ".join(f"{tq(n)} = {tq(x)}" for n, x in t["bind"]) + " }")
        out.append(toml_text(t.get("sub", []), path))
    return "\n".join(out) + "\n"


def toml_methods(entries):
    ms, ts = set(), set()
    for _, t in entries:
        if "method" in t:
            ms.add(t["method"])
        for _, x in t.get("bind", []):
            ts.add(x)
        ts |= set(t.get("traits", []))
        a, b = toml_methods(t.get("sub", []))
        ms |= a
        ts |= b
    return ms, ts


def toml_spec(entries, meths, texts):
    out = []
    for name, t in entries:
        opt = lambda k: [t[k]] if k in t else []
        tails = [x for x in t.get("tails", []) if not x.startswith("!")]
        out.append({"n": name, "t": {
            "method": [meths[t["method"]]] if "method" in t else [],
            "targets": opt("targets"), "tails": [tails] if "tails" in t else [],
            "tailsx": [x[1:] for x in t.get("tails", []) if x.startswith("!")],
            "ignore": opt("ignore"), "results": opt("results"), "macros": opt("macros"),
            "traits": [[texts.get(x, x) for x in t["traits"]]] if "traits" in t else [],
            "bind": [{"n": n, "t": texts[x]} for n, x in t.get("bind", [])],
            "sub": toml_spec(t.get("sub", []), meths, texts)}})
    return out


class Case:
    """One compilation: files (shown path -> text), with annotated items inside."""

    def __init__(self, name, files, toml=None, main="main.rs", features=C.FULL,
                 wrapped=False, toml_src=None):
        self.name, self.files, self.toml, self.main = name, files, toml or [], main
        self.features = list(features)
        # every item stands in a module of its own, w_ID: look at what is put beside it
        self.wrapped = wrapped
        self.toml_src = toml_src


def feats(tr):
    f = set()
    for e in tr["ev"]:
        for a in e.get("at", []):
            f.add("attr")
            f.add(a["s"])
            if a["s"] == "flavor":
                f.add("targets")
            if a["s"] == "method":
                if a["m"]["exc"]:
                    f.add("exc")
                if any(x["so"] for x in a["m"]["seq"]) or a["m"]["body"] in ("so", "expr.so"):
                    f.add("so")
        if e["k"] == "macro":
            f.add("macro")
    if tr["toml"]:
        f.add("toml")
        s = json.dumps(tr["toml"])
        if '"targets": [[' in s:
            f.add("targets")
        if '"exc": true' in s:
            f.add("exc")
        if '"so": true' in s:
            f.add("so")
    return sorted(f)


def expand(case, base):
    """Compile one case and project it; returns its traces."""
    art = C.build(case.features)
    d = os.path.join(base, case.name)
    os.makedirs(d)
    for p, text in case.files.items():
        fp = os.path.join(d, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "w", newline="") as f:
            f.write(text)
    if case.toml:
        with open(os.path.join(d, "hooq.toml"), "w") as f:
            f.write(case.toml_src or toml_text(case.toml))
    cap = os.path.join(d, "cap.jsonl")
    rc, diags, _ = C.rustc(art, d, case.main, os.path.join(d, "out.rmeta"), d, cap)
    ms, ts = toml_methods(case.toml)
    job = {"cap": [cap], "files": [{"path": p, "disk": os.path.join(d, p)} for p in case.files if p.endswith(".rs")],
           "methods": {m: m for m in ms}, "texts": {t: t for t in ts}}
    if case.wrapped:
        job["expanded"] = os.path.join(d, "expanded.rs")
        C.rustc(art, d, case.main, job["expanded"], d, os.path.join(d, "cap2.jsonl"), extra_args=["-Zunpretty=expanded"],
                extra_env={"RUSTC_BOOTSTRAP": "1"})
        if not os.path.exists(job["expanded"]):
            raise C.CheckError(f"{d}: rustc wrote no expanded code")
    jp = os.path.join(d, "job.json")
    with open(jp, "w") as f:
        json.dump(job, f)
    r = subprocess.run([art["vproj"], jp], capture_output=True, text=True)
    if r.returncode != 0:
        raise C.CheckError(f"vproj failed on {d}: {r.stderr[-2000:]}")
    lines = r.stdout.split("\n")
    head = json.loads(lines[0])
    spec = toml_spec(case.toml, head["methods"], head["texts"])
    traces = []
    for l in lines[1:]:
        if not l.strip():
            continue
        t = json.loads(l)
        if t["errs"]:
            raise C.CheckError(f"{d} item {t['id']}: the harness cannot read {t['errs']}")
        t["toml"] = spec
        t["features"] = case.features
        t["file"] = {"path": t["file"], "name": t["file"].split("/")[-1]}
        t["feat"] = feats(t)
        t["item"] = t["id"]
        t["case"] = d
        t["id"] = case.name + "/" + t["id"]
        msgs = []
        if t["out"] != "ok":
            for g in diags:
                if g.get("level") != "error":
                    continue
                for s in g.get("spans", []):
                    if s["file_name"] == t["file"]["path"] and t["line"] <= s["line_start"] <= t["endline"]:
                        msgs.append(g["message"][:300])
                        break
        t["msgs"] = msgs
        traces.append(t)
    if not traces:
        errs = [g["message"] for g in diags if g.get("level") == "error"][:3]
        raise C.CheckError(f"{d}: no items ({errs})")
    hard = [g["message"] for g in diags if g.get("level") == "error"]
    return traces, hard


KEEP = ("e", "k", "at", "name", "sig", "rt", "r", "callee", "ret", "top", "ver", "line", "col", "src", "obs",
        "parsed", "toks", "btoks")


def write_traces(traces, path):
    with open(path, "w") as f:
        for t in traces:
            ev = [{k: v for k, v in e.items() if k in KEEP} for e in t["ev"]]
            o = {"id": t["id"], "root": t["root"], "toml": t["toml"], "features": t["features"], "feat": t["feat"],
                 "file": t["file"], "out": t["out"], "al": t["al"], "erase": t["erase"], "left": t["left"],
                 "pre": t["pre"], "uses": t["uses"], "ev": ev}
            f.write(json.dumps(o) + "\n")


def expand_all(cases, base):
    os.makedirs(base, exist_ok=True)
    traces, hard = [], {}
    for c in sorted({tuple(sorted(c.features)) for c in cases}):
        C.build(c)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c, (ts, errs) in zip(cases, ex.map(lambda c: expand(c, base), cases)):
            traces += ts
            hard[c.name] = errs
    return traces, hard


def read_viols(out):
    """The differences TLC reported: PrintT of "VIOL " and a JSON record."""
    return [{"property": x["p"], "trace": x["id"], "event": x["at"], "what": x["what"]} for x in C.tlc_viols(out)]


def validate(traces, prop, base, keep_going=True, timeout=800):
    """Replay the traces in TLC; returns (violations, generated, distinct)."""
    def run(ts):
        path = os.path.join(base, "traces.ndjson")
        write_traces(ts, path)
        return C.tlc("HooqTrace", env={"TRACES": path, "PROPERTY": prop, "KEEP_GOING": "1" if keep_going else "0"},
                     timeout=timeout)

    rc, out = run(traces)
    with open(os.path.join(base, "tlc.out"), "w") as f:
        f.write(out)
    if rc != 0 and read_viols(out):
        return read_viols(out), *C.tlc_counts(out)
    if rc != 0:
        bad = C.narrow(traces, lambda ts: run(ts)[0] == 0) if rc != 124 else None
        if bad is None:
            raise C.CheckError("TLC failed on the traces:\n" + out[-3000:])
        why = [l for l in run([bad])[1].split("\n") if "rror" in l][:4]
        return [{"property": prop, "trace": bad["id"], "event": 0, "what": ["no such thing in the specification", why]}], 0, 0
    viols = read_viols(out)
    gen, dist = C.tlc_counts(out)
    return viols, gen, dist
