"""Checks: one per property. Usage: run.py check PID [--tier quick|thorough]"""
import json, os, shutil, sys, time, traceback
from . import common as C, walk, families as F, forms, store, excerpt, runs, metas, gens

REPLAY = os.path.join(C.WORK, "replay")


class Result:
    def __init__(self):
        self.viols = []        # (key, text, replay payload)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.extra = {}

    def add(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v


def run_traces(res, pid, cases, base, look=None):
    """Expand the cases, replay their traces in TLC, and collect what is charged to pid."""
    traces, hard = walk.expand_all(cases, os.path.join(base, "x"))
    by_id = {t["id"]: t for t in traces}
    viols, gen, dist = walk.validate(traces, pid, base)
    res.states += dist
    res.transitions += gen
    res.traces += len(traces)
    res.add(events=sum(len(t["ev"]) for t in traces), items=len(traces),
            targets=sum(1 for t in traces for e in t["ev"] if e["k"] == "q" and e["e"] == "o"),
            hooks_seen=sum(1 for t in traces for e in t["ev"] for o in e.get("obs", []) if o["y"] in "ir"),
            attributes=sum(len(e.get("at", [])) for t in traces for e in t["ev"]))
    if not res.samples:
        t = next((t for t in traces if 5 < len(t["ev"]) < 40), traces[0])
        res.samples.append({"item": source_of(t), "events": [shorten(e) for e in t["ev"][:25]]})
    seen = set()
    for v in viols:
        if v["property"] != pid:
            continue
        t = by_id[v["trace"]]
        key = (v["trace"],)
        if key in seen:
            continue
        seen.add(key)
        res.viols.append({"what": v["what"], "event": v["event"], "messages": t["msgs"], "item": source_of(t),
                          "case": t["case"], "id": t["item"], "trace": v["trace"]})
    if look:
        look(traces)
    return traces, viols


def shorten(e):
    return {k: v for k, v in e.items() if k in ("e", "k", "r", "obs", "name", "callee", "line", "col") or (k == "at" and v)}


def source_of(t):
    p = os.path.join(t["case"], t["file"]["path"])
    try:
        ls = open(p, encoding="utf-8-sig", newline="").read().replace("\r\n", "\n").split("\n")
    except OSError:
        return ""
    return "\n".join(ls[t["line"] - 1:t["endline"]])[:3000]


SCALE = {"quick": 1, "thorough": 12}


def walk_check(pid):
    def run(res, tier, seed, base):
        k = SCALE[tier]
        cases = F.items(seed, F.PROFILES[pid], 2200 * k, pid.lower())
        if pid == "P08":
            cases = F.items(seed, F.PROFILES[pid], 800 * k, "p08") + F.files(seed, F.PROFILES[pid], 720 * k, "f")
        if pid == "P05":
            cases = F.items(seed, F.PROFILES[pid], 1400 * k, "p05") + F.flavored(seed, F.PROFILES[pid], 600 * k, "fl", per=40)
            cases += F.flavored(seed, F.CLASH, 600 * k, "clash", per=40, tracked=True)
        if pid == "P12":
            cases = F.items(seed, F.PROFILES[pid], 1800 * k, "p12") + F.flavored(seed, F.PROFILES[pid], 480 * k, "fl", per=40)
        if pid == "P15":
            cases = F.flavored(seed, F.PROFILES[pid], 1400 * k, "p15", per=25)
            cases += F.flavored(seed, F.PROFILES[pid], 240 * k, "p15w", per=15, wrapped=True, traits=.2)
            cases += F.flavored(seed, F.PROFILES[pid], 500 * k, "p15e", per=25, bad=.04, unknown=.15)
            cases += F.flavored(seed, F.PARTLY, 320 * k, "p15r", per=40, roots=[("empty",), ("empty",), ("default",), ("hook",), ("log",)])
        if pid == "P13":
            cases = F.items(seed, F.PROFILES[pid], 1500 * k, "p13")
            cases += F.flavored(seed, F.PROFILES[pid][:1], 700 * k, "p13f", per=35, so=.5, unknown=.03)
        if pid == "P18":
            cases = F.items(seed, F.PROFILES[pid], 1400 * k, "p18")
            cases += F.flavored(seed, F.PROFILES[pid][:2], 700 * k, "p18f", per=25, so=.2, bad=.02, unknown=.05)
        if pid == "P17":
            cases = F.flavored(seed, F.PROFILES[pid], 1200 * k, "p17", per=20, wrapped=True, traits=.6)
        if pid == "P17":
            cases += F.flavored(seed, [dict(v, marks=True) for v in F.PROFILES[pid]], 240 * k, "p17m", per=20, wrapped=True, traits=.4)
        elif pid == "P15":
            cases += F.flavored(seed, [dict(v, marks=True) for v in F.PROFILES[pid]], 250 * k, "p15m", per=25)
        else:
            cases += F.items(seed, [dict(v, marks=True) for v in F.PROFILES[pid]], 320 * k, "m")
        # hooq with other features
        if pid in ("P15", "P17"):
            for f in [F.DEFAULT] + (F.PARTS if pid == "P15" else []):
                cases += F.flavored(seed, F.PROFILES[pid], 120 * k, "with-" + "-".join(f), per=24, so=.1, unknown=.03, features=f)
        else:
            cases += F.items(seed, [v if pid in ("P14", "P18") else dict(v, exc=0) for v in F.PROFILES[pid]], 240 * k, "d", features=F.DEFAULT)
        if pid != "P17":
            cases += F.deep(seed, F.PROFILES[pid], 100 * k, "deep")
        if pid == "P08":
            cases += F.far(seed, F.PROFILES[pid], 8 * k, "far")
        if pid == "P09":
            cases += F.long_fns(seed, 8 * k, "long")
        if pid in ("P12", "P15", "P18"):
            forms.check(res, pid, tier, seed, C.scratch(os.path.join(os.path.basename(base), "forms")))
        if pid == "P12":
            metas.check(res, tier, seed, C.scratch(os.path.join(os.path.basename(base), "metas")))
        if pid in gens.FOCUS:
            gens.check(res, pid, tier, seed, C.scratch(os.path.join(os.path.basename(base), "gens")), run_traces)
        for i in range(0, len(cases), 80):
            run_traces(res, pid, cases[i:i + 80], os.path.join(base, str(i)))
            if i + 80 < len(cases):
                shutil.rmtree(os.path.join(base, str(i), "x"), ignore_errors=True) if not res.viols else None
            if len(res.viols) > 20:
                break
    return run


CHECKS = {p: walk_check(p) for p in F.PROFILES}
CHECKS["P16"] = store.check
CHECKS["P19"] = runs.check
CHECKS["P20"] = excerpt.check("P20")
CHECKS["P21"] = excerpt.check("P21")
LEVELS = {p: "model_checking" for p in CHECKS}
WALK = ("TLA+ specification (HooqWalk), TLC validates traces recorded from real expansions",
        "Every expansion of seeded generated items, observed at the real macro's output, is replayed by TLC against "
        "the TLA+ machine. Bounded by the items generated; trusts rustc, syn and the projection to events.")
FORMS = ("TLA+ specifications (HooqWalk, HooqForms): TLC validates traces of real expansions and enumerates forms with verdicts",
         WALK[1] + " In addition TLC enumerates attribute, template, root and hooq.toml forms up to a bound with the "
         "verdict and the tokens they must give; all of them are put to the real macro.")
DESCR = {"*": WALK,
         "P12": (FORMS[0] + "; metadata recorded from running programs (HooqMeta)",
                 FORMS[1] + " Generated programs are compiled and run; the metadata and bindings each hook received at run time "
                 "are checked by TLC against the settings in force."),
         "P19": ("TLA+ machine of annotated programs (HooqRun): all outcomes of small programs model checked against the plain program; "
                 "TLC checks the logs of generated programs compiled plain and annotated",
                 "Generated programs (recorder, hook and built-in flavor modes) are compiled and run with seeded tapes of outcomes; "
                 "each log must be the machine's own. Bounded by the programs and outcomes generated."), "P15": FORMS, "P18": FORMS,
         "P16": ("TLA+ specification (HooqStore), model checked; histories generated by TLC are played to the real macro",
                 "The store model is explored exhaustively for two projects; seeded histories of it over four projects (60 steps) are "
                 "played in one rustc process each and every expansion's outcome compared."),
         "P20": ("TLA+ specification of layout (HooqExcerpt), TLC checks recorded outputs of the real macros",
                 "Seeded random expressions in random layouts; the real macros' output is compared with the specification's "
                 "text, and the place of each character checked separately."),
         "P21": ("TLA+ specification of excerpts and truncation (HooqExcerpt), TLC checks recorded outputs of the real macros",
                 "Seeded random expressions, string literals and option lists, valid or not; the real macros' output and "
                 "verdict are compared with the specification's.")}


def known(pid):
    out = []
    for l in open(os.path.join(C.VERIF, "KNOWN_FINDINGS")):
        if l.startswith("known: property=" + pid + " "):
            out.append(l.split(" ", 2)[2].strip())
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(C.WORK, exist_ok=True)
    t0 = time.time()
    base = C.scratch("check-" + pid)
    res = Result()
    try:
        C.build()
        CHECKS[pid](res, tier, seed, base)
    except C.Died as e:
        res.viols.append({"what": ["the compiler crashes or does not end while it expands annotated items", str(e)],
                          "case": str(e).split(":")[0]})
    except Exception as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        if not isinstance(e, C.CheckError):
            traceback.print_exc()
        # what was found before is not undone by what went wrong later
        if not res.viols:
            return 2
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
           "samples": res.samples[:3], **res.extra}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVELS[pid], "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": len(res.viols),
          "assumptions": ["rustc, syn and TLC work as documented",
                          "annotated items are generated and bounded; see DESIGN.md"]}
    os.makedirs(os.path.join(C.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(C.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not res.viols:
        shutil.rmtree(base, ignore_errors=True)
        print(f"ok property={pid} traces={res.traces} states={res.states} wall={ev['wall_s']}s")
        return 0
    os.makedirs(REPLAY, exist_ok=True)
    for i, v in enumerate(res.viols[:5]):
        p = os.path.join(REPLAY, f"{pid}-{i}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False)
        print(f"VIOLATION property={pid} replay={p}")
        print("  " + json.dumps(v["what"], ensure_ascii=False)[:400])
    print(f"{len(res.viols)} violations")
    return 1
