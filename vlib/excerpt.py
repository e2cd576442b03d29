"""HooqExcerpt: expressions in random layouts, shown by hooq's helper macros."""
import concurrent.futures, json, os, random, subprocess
from . import common as C

IDENTS = ["a", "foo", "bar_baz", "x1", "r#type", "\u540d\u524d", "self", "Config"]
CHARS = list("abcdef XY-012'") + ["\u00e9", "\u65e5", "\u00df", "\\\\", '\\"', "\\n", "\\t", "\\u{3b1}"]


class Exprs:
    """Expressions as lists of tokens; a token is its text, or (text, glue) with glue forbidding blanks before it."""

    def __init__(self, rng, long=.3, strings=.25):
        self.r, self.long, self.strings = rng, long, strings

    def string(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 20, 30]) if r.random() < .7 else r.randint(0, 40)
        k = r.random()
        if k < .12:
            body = "".join(r.choice("abc XY\\12\u00e9\u65e5") for _ in range(n))
            if r.random() < .4:
                body = body[:n // 2] + "\n" + "  " * r.randint(0, 3) + body[n // 2:]
            if r.random() < .5 or body.endswith("\\"):
                return 'r#"' + body + ('"q' if r.random() < .4 else "") + '"#'
            return 'r"' + body + '"'
        body = "".join(r.choice(CHARS) for _ in range(n))
        if k < .3:
            # lines of its own in the file
            parts = [body[i:] for i in (0,)]
            odd = ["// note", "//", "/* x */", " //y", "#[a]", "{", "}", "..", "...", " | ", ");", "1> x", "\\u{41}", "let", "\\\"", "\t", "r#"]
            parts = [r.choice(odd) if r.random() < .3 else
                     "".join(r.choice("abcdefg XY.") for _ in range(r.choice([0, 3, 9, 10, 11, 25]))) for _ in range(r.randint(2, 4))]
            body = ("\n" + " " * r.randint(0, 6)).join(parts)
            if r.random() < .25:
                body = body.replace("\n", "\\\n", 1)
        if k > .93:
            return "b\"" + "".join(r.choice("abcdefgh \\n0") for _ in range(n)).replace("\\", "\\\\") + '"'
        if k > .9:
            return 'c"' + "".join(r.choice("abcdefgh ") for _ in range(n)) + '"'
        return '"' + body + '"'

    def lit(self):
        r = self.r
        if r.random() < self.strings:
            return [self.string()]
        return [r.choice(["0", "1_000u64", "2.5", "0xff", "'c'", "'\\''", "b'x'", "true", "1e3", "'\u65e5'"])]

    def atom(self):
        r = self.r
        k = r.random()
        if k < .35:
            return self.lit()
        if k < .55:
            return ["a", "::", "b", "::", "c"][:r.choice([1, 3, 5])]
        return [r.choice(IDENTS)]

    def seq(self, d, n, sep=","):
        out = []
        for i in range(n):
            out += self.expr(d - 1) + ([sep] if i < n - 1 or self.r.random() < .4 else [])
        return out

    def expr(self, d):
        r = self.r
        if d <= 0:
            return self.atom()
        k = r.randint(0, 19)
        n = r.randint(0, 3)
        if k <= 3:
            return [r.choice(IDENTS), "("] + self.seq(d, n) + [")"]
        if k <= 6:
            out = [r.choice(IDENTS)]
            for _ in range(r.randint(1, 4)):
                out += [".", r.choice(["map", "get", "iter", "await", "field", "0"])]
                if out[-1] not in ("await", "field", "0"):
                    if r.random() < .2:
                        out += ["::", "<", "Vec", "<", "_", ">", ">"]
                    out += ["("] + self.seq(d, r.randint(0, 2)) + [")"]
                if r.random() < .3:
                    out += ["?"]
            return out
        if k == 7:
            return ["["] + self.seq(d, n) + ["]"]
        if k == 8:
            return ["("] + self.seq(d, 2) + [")"]
        if k == 9:
            return ["S", "{"] + ["x", ":"] + self.expr(d - 1) + [",", "y", ":"] + self.expr(d - 1) + ([","] if n else []) + ["}"]
        if k == 10:
            return ["|", "x", ",", "&", "y", "|", "{", "let", "z", "="] + self.expr(d - 1) + [";"] + self.expr(d - 1) + ["}"]
        if k == 11:
            return ["match"] + [r.choice(["a", "foo"])] + ["{"] + ["Some", "(", "x", ")", "if"] + self.atom() + ["=>"] + self.expr(d - 1) + [","] + \
                self.lit() + ["|", "_", "=>", "{"] + self.expr(d - 1) + ["}", "}"]
        if k == 12:
            return ["if", "a", "==", "b", "{"] + self.expr(d - 1) + ["}", "else", "{"] + self.expr(d - 1) + ["}"]
        if k == 13:
            return [r.choice(["format", "vec", "m"]), "!", r.choice(["(", "["])] + self.mac(d) + ["?CLOSE"]
        if k == 14:
            return self.atom() + [r.choice(["+", "&&", "<<", "..=", "!=", ">=", "*", "|"])] + self.atom()
        if k == 15:
            return [r.choice(["!", "-", "*", "&"])] + [r.choice(IDENTS)]
        if k == 16:
            return [r.choice(IDENTS), "["] + self.expr(d - 1) + ["]"]
        if k == 17:
            return ["'outer", ":", "loop", "{", "break", "'outer"] + self.atom() + [";", "}"]
        if k == 18:
            return ["async", "move", "{"] + self.expr(d - 1) + ["}"]
        return ["Err", "("] + self.expr(d - 1) + [")"]

    def mac(self, d):
        return self.seq(d, self.r.randint(1, 3))

    def close(self, toks):
        """Resolve ?CLOSE by bracket matching."""
        st, out = [], []
        for t in toks:
            if t in "([{" and len(t) == 1:
                st.append(t)
            elif t == "?CLOSE":
                t = {"(": ")", "[": "]"}[st.pop()]
            elif t in (")", "]", "}"):
                st.pop()
            out.append(t)
        return out

    def tokens(self, d):
        return self.close(self.expr(d))


def lay(rng, toks, wild, indent):
    """Text of the tokens with blanks, line ends, and comments between them."""
    out = toks[0]
    for p, t in zip(toks, toks[1:]):
        word = lambda s: s[0].isalnum() or s[0] in "_\"'" or ord(s[0]) > 127 or s.startswith("r#")
        wordend = lambda s: s[-1].isalnum() or s[-1] in "_\"'#" or ord(s[-1]) > 127
        brk = "([{}]),;"
        glue = (p in brk or t in brk) or (wordend(p) and not word(t) and not (p[-1].isdigit() or t[0] in "'#")) or (not wordend(p) and word(t) and p not in ("&", "|", "<") and p[0] != "'")
        if p in (".",) and t == "0" or t == "." and p[0].isdigit():
            glue, = False,
        if t == "!" or p == "!" or p.endswith("#"):
            glue = t == "!" and not p.endswith("#") or t in brk
        x = rng.random()
        if x < wild:
            s = rng.choice(["\n" + " " * rng.choice([0, 1, 3, indent, indent + 4, indent + 8, 30]), "\n\n" + " " * indent, "  ", "     ",
                            "\n" * rng.randint(3, 40) + " " * rng.choice([indent, 60, 120]), "\n  // c" * rng.randint(2, 12) + "\n",
                            "\t", " /* c */ ", " // c\n" + " " * (indent + 4), "\n" + "\t" * 2, " /* \u00e9\n x */ "])
        elif glue and rng.random() < .75:
            s = ""
        else:
            s = " "
        out += s + t
    return out


PADS = [("padding", "none", 0, ""), ("padding", "str", 0, "top"), ("padding", "str", 0, "bottom"), ("padding", "str", 0, "both")]
BADOPTS = [("excerpt_line", "none", 0, ""), ("excerpt_line", "str", 0, "3"), ("truncate_str", "str", 0, "top"), ("padding", "str", 0, "Top"),
           ("padding", "int", 1, ""), ("excerpt", "int", 3, ""), ("nope", "none", 0, ""), ("excerpt_line", "int", 0, ""), ("padding", "str", 0, "")]


def rand_opts(rng, mac, pid):
    o = []
    n = rng.choice([0, 1, 2, 3, 4])
    for _ in range(n):
        k = rng.randint(0, 3)
        if k == 0:
            o.append(("excerpt_line", "int", rng.choice([1, 2, 3, 4, 5, 6, 8, 100]), ""))
        elif k == 1:
            o.append(("truncate_str", *rng.choice([("none", 0), ("int", rng.randint(0, 16)), ("int", 40)]), ""))
        elif k == 2:
            o.append(("show_line_num", "none", 0, ""))
        else:
            o.append(rng.choice(PADS))
    if pid == "P20":
        if mac == "one_line_stringify":
            o = [x for x in o if x[0] != "truncate_str"]
        if mac in ("excerpted_pretty_stringify", "summary"):
            o = [x for x in o if x[0] not in ("excerpt_line", "truncate_str")] + [("excerpt_line", "int", 1000, ""), ("truncate_str", "int", 10000, "")]
    return o


def opt_text(rng, opts):
    out = ""
    for i, (n, k, v, s) in enumerate(opts):
        out += "@" + rng.choice(["", "", " "]) + n
        if k == "none":
            out += ","
        else:
            out += rng.choice([" = ", "="]) + (str(v) if k == "int" else json.dumps(s)) + rng.choice([",", ",", " "])
        out += rng.choice([" ", " ", "", "\n    "])
    if opts and rng.random() < .15:
        out += "; "
    return out


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def pos(text, off):
    l = text.count("\n", 0, off)
    c = off - (text.rfind("\n", 0, off) + 1)
    return l + 1, c


MACS = {"P20": ["pretty_stringify", "pretty_stringify", "one_line_stringify", "excerpted_pretty_stringify"],
        "P21": ["excerpted_pretty_stringify", "excerpted_pretty_stringify", "summary", "one_line_stringify", "truncate_lit_str"]}


def case(job):
    """One file of macro calls; returns records without tokens merged."""
    pid, name, base, seed, n, mode = job
    rng = random.Random(f"excerpt/{pid}/{seed}/{name}")
    d = os.path.join(base, name)
    os.makedirs(d)
    head = rng.choice(["", "", "\n" * 90, "\n" * 994, "\n" * rng.choice([9990, 9996, 10050])])
    text, recs, ranges = "#![allow(unused)]\n" + head, {}, []
    for k in range(n):
        x = f"i{k}"
        mac = rng.choice(MACS[pid])
        if mac == "truncate_lit_str" and mode != "call":
            mac = "one_line_stringify"
        g = Exprs(rng, strings=rng.choice([.1, .3, .6]) if mac != "truncate_lit_str" else .9)
        o = rand_opts(rng, mac, pid)
        bad = mode == "bad" and rng.random() < .6
        if bad:
            o.insert(rng.randint(0, len(o)), rng.choice(BADOPTS))
        if mac == "truncate_lit_str":
            toks = ["["]
            for _ in range(rng.randint(1, 5)):
                toks += [g.string() if rng.random() < .9 else "1", ","]
            toks += ["]"]
        else:
            toks = g.tokens(rng.choice([1, 2, 2, 3, 4]))
        ind = rng.choice([0, 4, 4, 8, 12, 2])
        if mode == "source":
            # shown by a method, of a hooked `?`
            toks = g.close([rng.choice(["foo", "a", "b"]), "("] + Exprs(rng, strings=.3).expr(rng.choice([1, 2, 3])) + [")"])
            toks = [t for t in toks if t != "?"]
        body = lay(rng, toks, rng.choice([0, .05, .15, .4]), ind)
        op = opt_text(rng, o)
        path = "::hooq::summary" if mac == "summary" else f"::hooq::source_excerpt_helpers::{mac}"
        pre = f"fn {x}() {{\n" + " " * ind
        if mode == "source":
            text += (f'#[::hooq::hooq(empty)] #[hooq::hook_targets("?")]\n#[hooq::method(.__ex("{x}", {path}!({op} $source)))]\n')
            text += pre + rng.choice(["let v = ", "", "g(", "return ", "x.y = "])
            tail = ")" if text.endswith("g(") else ""
            a = len(text)
            text += body + rng.choice(["?", "?", " ?", "\n" + " " * (ind + 2) + "?"])
            b = len(text)
            text += tail + ";\n}\n"
        else:
            text += pre + f'__ex("{x}", ' + path + rng.choice(["!(", "!["])
            close = ")" if text.endswith("(") else "]"
            text += rng.choice(["", "", "\n" + " " * (ind + 4), " "]) + op
            a = len(text)
            text += body
            b = len(text)
            text += close + ");\n}\n"
        recs[x] = {"id": name + "/" + x, "mac": mac, "o": [dict(zip("nkis", q)) for q in o], "text": text[a:b], "opts": op, "item": pre + op + body}
        (l0, c0), (l1, c1) = pos(text, a), pos(text, b)
        ranges.append({"id": x, "l0": l0, "c0": c0, "l1": l1, "c1": c1})
    text += "fn main() {}\n"
    p = os.path.join(d, "main.rs")
    with open(p, "w") as f:
        f.write(text)
    art = C.build()
    with open(os.path.join(d, "job.json"), "w") as f:
        json.dump({"jobs": [{"disk": p, "ranges": ranges}]}, f)
    r = subprocess.run([art["vproj"], "--tokens", os.path.join(d, "job.json")], capture_output=True, text=True)
    if r.returncode != 0:
        raise C.CheckError(f"{d}: vproj --tokens: {r.stderr[-500:]}")
    for l in r.stdout.splitlines():
        o = json.loads(l)
        if "error" in o:
            raise C.CheckError(f"{d} {o['id']}: generated expression does not parse: {o['error']}: {recs[o['id']]['text']}")
        recs[o["id"]]["toks"] = o["toks"]
    exp = os.path.join(d, "expanded.rs")
    rc, diags, _ = C.rustc(art, d, "main.rs", exp, d, os.path.join(d, "cap.jsonl"), extra_args=["-Zunpretty=expanded"],
                           extra_env={"RUSTC_BOOTSTRAP": "1"})
    if not os.path.exists(exp):
        raise C.CheckError(f"{d}: no expanded code: {[g['message'] for g in diags][:3]}")
    r = subprocess.run([art["vproj"], "--shown", exp], capture_output=True, text=True)
    if r.returncode != 0:
        raise C.CheckError(f"{d}: vproj --shown: {r.stderr[-500:]}")
    got = {}
    for v in json.loads(r.stdout):
        if v and v[0] in recs:
            got[v[0]] = "|".join(esc(s) for s in v[1:]) if recs[v[0]]["mac"] == "truncate_lit_str" else "".join(v[1:2])
            if recs[v[0]]["mac"] != "truncate_lit_str" and len(v) != 2:
                del got[v[0]]
    out = []
    for x, rec in recs.items():
        s = got.get(x)
        out.append(dict(rec, ok=s is not None, got=s or "", file=p))
    return out


def check(pid):
    def run(res, tier, seed, base):
        k = {"quick": 1, "thorough": 12}[tier]
        jobs = []
        for i in range(100 * k):
            mode = ["call", "call", "source", "bad" if pid == "P21" else "source"][i % 4]
            jobs.append((pid, f"{mode}{i}", base, seed, 40, mode))
        recs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for part in ex.map(case, jobs):
                recs += part
        out, bad = C.tlc_records("HooqExcerpt", [{x: r[x] for x in ("id", "mac", "o", "toks", "ok", "got")} for r in recs], {},
                                 "TRACES", 850)
        gen, dist = C.tlc_counts(out)
        res.states += dist
        res.transitions += gen
        res.traces += len(recs)
        res.add(tokens=sum(len(r["toks"]) for r in recs), lines=sum(r["got"].count("\n") + 1 for r in recs),
                options=sum(len(r["o"]) for r in recs), rejected=sum(not r["ok"] for r in recs))
        res.samples.append({k: recs[0][k] for k in ("text", "o", "mac", "got")})
        by = {r["id"]: r for r in recs}
        found = list(C.tlc_viols(out))
        if bad is not None:
            found.append({"id": recs[bad]["id"], "what": C.ODD})
        for v in found:
            r = by[v["id"]]
            res.viols.append({"what": [v["what"], r["mac"], r["o"]], "got": r["got"], "text": r["text"], "opts": r["opts"],
                              "id": r["id"], "file": r["file"]})
    return run
