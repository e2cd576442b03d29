"""mutate.py list|run WORKER WORKERS OUT: small changes to hooq, in scratch copies, looked at by a short mix of the
checks. Finds what the checks do not look at; what is left over is read by hand. Works in /tmp/mut only."""
import sys, os, re, json, random, shutil, subprocess, time
REPO = "/repo"
SRC = ["hooq-macros/src", "hooq-helpers/src"]


def code_lines(path):
    """(index, line) of lines of code outside test modules and comments."""
    ls = open(path).read().split("\n")
    out = []
    block = False
    for i, l in enumerate(ls):
        if l.strip().startswith("/*"):
            block = True
        if "*/" in l:
            block = False
            continue
        if block:
            continue
        if "#[cfg(test)]" in l:
            if i + 1 < len(ls) and ls[i + 1].strip().startswith("mod tests {"):
                break
        s = l.strip()
        if not s or s.startswith(("//", "use ", "pub use", "mod ", "pub mod", "#[", "#![")):
            continue
        out.append((i, l))
    return ls, out


SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"(?<=[\s(])!(?=[a-z(])(?!\[)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" \+ ", " - "), (r" - ", " + "), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
    (r"\bis_ok\(\)", "is_err()"), (r"\bis_err\(\)", "is_ok()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.rev\(\)", ""),
    (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif (?!let)(.+) \{$", r"if true || \1 {"), (r"\bif (?!let)(.+) \{$", r"if false && (\1) {"),
    (r"\.trim\(\)", ""), (r"\.trim_end\(\)", ""), (r"\.trim_start\(\)", ""), (r"\.next\(\)", ".skip(1).next()"),
    (r"\.start\(\)", ".end()"), (r"\.end\(\)", ".start()"), (r"\.get_or_insert_with\(", ".insert_with("),
    (r"\.or_else\(", ".and_then_("), (r"\.push\(", ".insert(0, "), (r"\.extend\(", ".clone().extend("), (r" \| [A-Z][\w:]+(\([^()]*\))?", ""),
    (r"\.saturating_sub\(", ".saturating_add("), (r" \+= ", " -= "), (r" -= ", " += "), (r"\bSome\((\w+)\)$", "None"),
    (r"\.clone\(\)", ".clone().clone()") if False else (r"Ok\(true\)", "Ok(false)"), (r"\.starts_with\(", ".contains("), (r"\.ends_with\(", ".starts_with("),
    (r"\.contains\(", ".starts_with("), (r"\.skip\(", ".take("), (r"\.take\(", ".skip("), (r"\.filter\(", ".skip_while("), (r"\.chars\(\)\.count\(\)", ".len()"),
    (r"\.chars\(\)", ".chars().rev()"), (r"&mut (\w+)", r"&mut \1.clone()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter_mut\(\)", ".iter_mut().skip(1)"),
]


def mutants():
    out = []
    for top in SRC:
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if not f.endswith(".rs") or "test" in p or f == "get_attrs.rs":
                    continue
                ls, code = code_lines(os.path.join(REPO, p))
                for i, l in code:
                    body = l.split(" // ")[0]
                    if "Error::new" in l or "panic!" in l or "fn " in l and "|" not in l and not "closure" in l:
                        continue
                    new = set()
                    for a, b in SUBS:
                        for m in re.finditer(a, body):
                            n = body[:m.start()] + m.expand(b) + body[m.end():]
                            if n != body:
                                new.add(n)
                    # literals
                    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", body):
                        new.add(body[:m.start()] + str(int(m[1]) + 1) + body[m.end():])
                    for m in re.finditer(r'"([^"\\]+)"', body):
                        if " " not in m[1]:
                            new.add(body[:m.start()] + '"' + m[1] + 'q"' + body[m.end():])
                    for m in re.finditer(r"'([^'\\])'", body):
                        new.add(body[:m.start()] + "'\\u{1}'" + body[m.end():])
                    s = body.strip()
                    # statements of one line, and arms
                    if s.endswith(";") and not s.startswith(("let ", "}", ")", "return", "const", "static", "type", "]")) and s.count("(") == s.count(")"):
                        new.add("")
                    if s in ("continue;", "break;"):
                        new.add("")
                    if re.match(r"^[A-Z][\w:]+(\(.*\)| \{.*\})? => .*,$", s):
                        new.add("")
                    if re.match(r"^\| [A-Z][\w:]+(\(.*\))?$", s):
                        new.add("")
                    if s.startswith("return ") and s.endswith(";"):
                        new.add("")
                    for n in sorted(new):
                        out.append({"file": p, "line": i, "old": l, "new": n})
    # several lines
    return out


MIX = r'''
import sys, os, json
sys.path.insert(0, sys.argv[1])
from vlib import common as C, walk, families as F, check as K, forms, store, excerpt, metas
stage = sys.argv[2]
res = K.Result()
try:
    C.build()
except C.CheckError as e:
    print("BUILD"); sys.exit(3)
try:
    if stage == "walk":
        cases = []
        for p, vs in sorted(F.PROFILES.items()):
            if p in ("P15", "P17"):
                continue
            cases += [F.items(1, [v], 14, "x%s%d" % (p, i), per=14)[0] for i, v in enumerate(vs)]
        cases += F.files(1, F.PROFILES["P08"], 48, "xf") + F.flavored(1, F.PROFILES["P15"], 75, "xl", per=25, so=.2)
        cases += F.flavored(1, F.PROFILES["P17"], 60, "xw", per=20, wrapped=True, traits=.6) + F.flavored(1, F.PROFILES["P15"], 50, "xe", per=25, bad=.04, unknown=.15)
        cases += F.items(1, [dict(F.PROFILES["P03"][0], marks=True), dict(F.PROFILES["P11"][0], marks=True)], 80, "xm") + F.flavored(1, F.CLASH, 40, "xc", per=40, tracked=True)
        cases += F.long_fns(1, 1, "xlong")
        b = C.scratch("mut")
        K.C_workers = 3
        tr, _ = walk.expand_all(cases, b + "/x")
        v, g, d = walk.validate(tr, "all", b)
        ps = sorted({x["property"] for x in v})
        if v:
            print("KILLED walk", ps, json.dumps(v[0]["what"])[:150]); sys.exit(1)
    elif stage == "excerpt":
        for p in ("P20", "P21"):
            excerpt.check(p)(res, "quick", 1, C.scratch("mute"))
            if res.viols:
                print("KILLED", p); sys.exit(1)
    else:
        K.CHECKS[stage](res, "quick", 1, C.scratch("mutc"))
        if res.viols:
            print("KILLED", stage, json.dumps(res.viols[0]["what"])[:150]); sys.exit(1)
    print("SURVIVED"); sys.exit(0)
except C.Died as e:
    print("KILLED died", str(e)[:100]); sys.exit(1)
except C.CheckError as e:
    print("ERROR", str(e)[:300].replace("\n", " ")); sys.exit(4)
'''


def setup(w):
    top = f"/tmp/mut/{os.environ.get('MUT', 'w')}{w}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    shutil.copytree("/repo", top + "/repo", ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
    subprocess.run(["git", "clone", "-q", "/verif", top + "/verif"], check=True)
    for f in ("vhost", "vrt"):
        p = f"{top}/verif/harness/{f}/Cargo.toml"
        t = open(p).read().replace("/repo/", top + "/repo/")
        open(p, "w").write(t)
    open(top + "/mix.py", "w").write(MIX)
    os.makedirs(top + "/verif/.work", exist_ok=True)
    return top


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m["file"], m["line"] + 1, "|", m["old"].strip(), "|", m["new"].strip())
        print(len(ms))
        return
    w, n, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    stages = sys.argv[6].split(",") if len(sys.argv) > 6 else ["walk"]
    random.Random(7).shuffle(ms)
    ms = [m for m in ms if re.search(only, m["file"])]
    done = set()
    if os.path.exists(out):
        done = {(m["file"], m["line"], m["new"]) for m in map(json.loads, open(out))}
    top = setup(w)
    env = dict(os.environ, HOOQ_REPO=top + "/repo")
    def run(stage):
        try:
            r = subprocess.run([sys.executable, top + "/mix.py", top + "/verif", stage], env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return 9, "TIMEOUT"
        if r.returncode == 1 and "KILLED" not in r.stdout:
            return 4, r.stderr[-300:]
        return r.returncode, (r.stdout.strip().split("\n")[-1] or r.stderr[-200:])
    for s in stages:
        r = run(s)
        print("clean", s, r, flush=True)
        if r[0]:
            sys.exit(1)
    for i, m in enumerate(ms):
        if i % n != w or (m["file"], m["line"], m["new"]) in done:
            continue
        p = os.path.join(top, "repo", m["file"])
        orig = open(p).read()
        ls = orig.split("\n")
        assert ls[m["line"]] == m["old"]
        ls[m["line"]] = m["new"]
        t = time.time()
        try:
            open(p, "w").write("\n".join(ls))
            for s in stages:
                rc, txt = run(s)
                if rc:
                    break
        finally:
            open(p, "w").write(orig)
        with open(out, "a") as f:
            f.write(json.dumps({**m, "rc": rc, "txt": txt, "s": round(time.time() - t, 1)}) + "\n")


main()
