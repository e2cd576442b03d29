"""Programs enumerated by TLC (HooqGen), put to the real macro."""
import json, os, random
from . import common as C, walk

FOCUS = {"P01": "mixed", "P02": "other", "P03": "values", "P04": "skip", "P05": "method", "P06": "targets", "P07": "macros",
         "P08": "pos", "P09": "count", "P10": "fn", "P11": "source", "P12": "bind", "P13": "so", "P14": "exc", "P18": "bad"}
SAME = ("e", "k", "r", "callee", "ret", "top", "at", "name", "rt", "parsed")


def programs(focus, nodes, attrs, depth, timeout=800):
    """TLC builds every program within the bounds, checks the invariants of HooqGen and prints it."""
    rc, out = C.tlc("HooqGen", env={"FOCUS": focus, "NODES": str(nodes), "ATTRS": str(attrs), "DEPTH": str(depth)}, timeout=timeout)
    if rc != 0:
        rest = "\n".join(l for l in out.split("\n") if not l.startswith('"PROG '))
        raise C.CheckError(f"HooqGen ({focus}): TLC failed\n" + rest[:3000])
    ps = [json.loads(json.loads(l)[5:]) for l in out.split("\n") if l.startswith('"PROG ')]
    ps.sort(key=lambda p: p["text"])
    return ps, C.tlc_counts(out)


def prune(ev):
    """Without the slots in which nothing is to be decided, and the scopes that hold nothing."""
    pair, stack = {}, []
    for i, e in enumerate(ev):
        if e["e"] == "o":
            stack.append(i)
        else:
            pair[stack.pop()] = i
    drop = set()
    for i, j in pair.items():
        if ev[i]["k"] == "slot" and ev[i]["r"] == "x" and (ev[i + 1]["e"], ev[i + 1]["k"]) not in (("o", "q"), ("o", "node")):
            drop |= {i, j}
    ev = [e for i, e in enumerate(ev) if i not in drop]
    out = []
    for e in ev:
        if out and e["e"] == "c" and e["k"] == "scope" and out[-1]["e"] == "o" and out[-1]["k"] == "scope":
            out.pop()
        else:
            out.append(e)
    return out


def skeleton(ev):
    return [{k: e[k] for k in SAME if k in e and not (e["e"] == "c" and k != "e" and k != "k")} for e in prune(ev)]


def cases(ps, name, per=60):
    out, want = [], {}
    for i in range(0, len(ps), per):
        txt = ""
        for j, p in enumerate(ps[i:i + per]):
            txt += f"#[::hooq::hooq]\n#[vcap::post(i{j})]\n{p['text']}\n"
            want[f"{name}{i}/i{j}"] = p
        out.append(walk.Case(f"{name}{i}", {"main.rs": txt + "fn main() {}\n"}))
    return out, want


def compare(traces, want):
    """What is recorded must have the structure that was generated."""
    for t in traces:
        p = want[t["id"]]
        if t["out"] == "ok" and not t["al"]:
            continue        # the expansion is of another structure: charged by HooqTrace
        a, b = skeleton(t["ev"]), skeleton(p["ev"])
        if a != b:
            d = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
            raise C.CheckError(f"HooqGen and the projection differ on {p['text']}: {d}")


BOUNDS = {"quick": {"values": (2, 1, 2), "targets": (2, 1, 2), "count": (3, 0, 2), "fn": (3, 0, 2), "other": (3, 0, 2), "*": (2, 2, 2)},
          "thorough": {"values": (2, 2, 2), "count": (4, 0, 2), "fn": (4, 0, 2), "other": (3, 0, 3), "*": (3, 1, 2)}}
SAMPLE = {"quick": 1000, "thorough": 9000}


def check(res, pid, tier, seed, base, run_traces):
    """All programs of pid's focus are checked in TLC; a seeded sample of them is put to the real macro."""
    focus = FOCUS[pid]
    b = BOUNDS[tier].get(focus, BOUNDS[tier]["*"])
    ps, (gen, dist) = programs(focus, *b)
    res.states += dist
    res.transitions += gen
    res.add(programs_enumerated=len(ps))
    rng = random.Random(f"gens/{pid}/{seed}")
    small = [p for p in ps if len(p["ev"]) < 14]
    pick = rng.sample(small, min(len(small), SAMPLE[tier] // 10)) + rng.sample(ps, min(len(ps), SAMPLE[tier]))
    pick = list({p["text"]: p for p in pick}.values())
    cs, want = cases(pick, "g")
    res.add(programs_expanded=len(pick))
    for i in range(0, len(cs), 40):
        run_traces(res, pid, cs[i:i + 40], os.path.join(base, str(i)), lambda ts: compare(ts, want))
        if len(res.viols) > 20:
            break
