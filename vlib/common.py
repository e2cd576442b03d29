"""Paths, builds, and running the compiler and TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HOOQ_REPO", "/repo")
BUILD = os.environ.get("HOOQ_BUILD", os.path.join(VERIF, ".build"))
WORK = os.environ.get("HOOQ_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "1.88.0"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Died(Exception):
    """The compiler crashed or did not end while it expanded generated items."""


class CheckError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = BUILD
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_MANIFEST_DIR"):
        e.pop(k, None)
    return e


def repo_hash():
    h = hashlib.sha256()
    for top in ("hooq", "hooq-macros", "hooq-helpers"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", "tests", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


# the features of hooq a build has
FULL = ("anyhow", "consume", "eyre", "log", "tracing")
_built = {}


def build(feats=FULL):
    """Build hooq from the working tree (and the tools); returns the artifacts."""
    feats = tuple(sorted(feats))
    if feats in _built:
        return _built[feats]
    full = feats == FULL
    dir = BUILD if full else os.path.join(BUILD, "with-" + "-".join(feats))
    os.makedirs(dir, exist_ok=True)
    stamp = os.path.join(dir, "hooq.stamp")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != now:
        # never trust time stamps about a changed tree
        fp = os.path.join(dir, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("hooq", "vhost")):
                    shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    cmd += ["--features", "vhost/consume"] if full else ["-p", "vhost", "--no-default-features", "--features", ",".join(feats)]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=dict(cargo_env(), CARGO_TARGET_DIR=dir),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError("cargo build failed:\n" + r.stderr[-4000:])
    art = {} if full else dict(build())
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"]
            if n in ("hooq", "vcap", "hooq_helpers", "hooq_macros", "vrt", "log", "anyhow", "eyre", "tracing") and \
                    ("rlib" in m["target"]["crate_types"] or "lib" in m["target"]["crate_types"] or "proc-macro" in m["target"]["crate_types"]):
                art[n] = [f for f in m["filenames"] if f.endswith((".rlib", ".so"))][0]
            if n == "vproj":
                art[n] = m["executable"]
    art["deps"] = os.path.join(dir, "debug", "deps")
    with open(stamp, "w") as f:
        f.write(now)
    _built[feats] = art
    return art


def rustc_env(manifest_dir, cap=None, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTUP_HOME", "CARGO_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    if manifest_dir is not None:
        e["CARGO_MANIFEST_DIR"] = manifest_dir
    if cap:
        e["VCAP_OUT"] = cap
    if extra:
        e.update(extra)
    return e


def sysroot():
    global _sysroot
    try:
        return _sysroot
    except NameError:
        pass
    _sysroot = subprocess.run(["rustup", "run", TOOLCHAIN, "rustc", "--print", "sysroot"],
                              capture_output=True, text=True).stdout.strip()
    return _sysroot


_died = []


def rustc(art, cwd, main, out, manifest_dir, cap=None, emit="metadata", extra_args=(), extra_env=None,
          timeout=None, edition="2024"):
    """Run rustc itself; returns (exit code, diagnostics, stdout). A run takes about 0.1 s (metadata) or some
    seconds (link): one that crashes or goes on and on does so in the macro it runs."""
    if _died:
        raise Died(_died[0])
    if timeout is None:
        timeout = 300 if emit == "link" else 100
    cmd = ["prlimit", "--as=12000000000", "--core=0", os.path.join(sysroot(), "bin", "rustc"), "--edition", edition, "--emit=" + emit, "-o", out, main,
           "--error-format=json", "-L", "dependency=" + art["deps"],
           "--extern", "hooq=" + art["hooq"], "--extern", "vcap=" + art["vcap"], "--cap-lints", "allow",
           *extra_args]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=rustc_env(manifest_dir, cap, extra_env), capture_output=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        _died.append(f"{cwd}: rustc does not end")
        raise Died(_died[0])
    if r.returncode < 0 and r.returncode != -9 or r.returncode in (128 + 6, 128 + 11):
        _died.append(f"{cwd}: rustc ended by signal {r.returncode}: {r.stderr.decode(errors='replace')[-300:]}")
        raise Died(_died[0])
    diags = []
    for line in r.stderr.decode(errors="replace").splitlines():
        try:
            diags.append(json.loads(line))
        except ValueError:
            if line.strip():
                diags.append({"message": line, "level": "note", "spans": []})
    return r.returncode, diags, r.stdout.decode(errors="replace")


def tlc(module, cfg=None, env=None, args=(), workers=8, timeout=800, mem="6g", cont=False):
    """Run TLC in a scratch directory; returns its output."""
    spec = os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-Xss512m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-nowarning",
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg", *args]
    if cont:
        cmd.append("-continue")
    cmd.append(module + ".tla")
    try:
        r = subprocess.run(cmd, cwd=spec, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace"), 124
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def narrow(recs, good):
    """TLC cannot evaluate the specification on these records: one of them it cannot be evaluated on, while it can
    be on another; None if there is no such pair (then the reason is not in the records)."""
    recs, fine = list(recs), None
    while len(recs) > 1:
        a, b = recs[:len(recs) // 2], recs[len(recs) // 2:]
        if good(a):
            recs, fine = b, a[0]
        elif good(b):
            recs, fine = a, b[0]
        else:
            recs = a
    if good(recs) or fine is None or not good([fine]):
        return None
    return recs[0]


ODD = "no such thing in the specification"


def tlc_records(module, recs, env, var, timeout, **kw):
    """TLC over records (of one line of JSON each, in the file that environment variable `var' names): its output, and
    the record the specification cannot be evaluated on, if there is one. What TLC reported before it stopped counts."""
    base = tempfile.mkdtemp(prefix="recs-", dir=WORK)

    def run(rs):
        path = os.path.join(base, "recs.ndjson")
        with open(path, "w") as f:
            for r in rs:
                f.write(json.dumps(r) + "\n")
        return tlc(module, env={**env, var: path}, timeout=timeout, **kw)

    try:
        rc, out = run(recs)
        if rc == 0 or '"VIOL ' in out:
            return out, None
        bad = narrow(list(enumerate(recs)), lambda rs: run([r for _, r in rs])[0] == 0) if rc != 124 else None
        if bad is None:
            raise CheckError(f"TLC failed on {module}:\n" + out[-3000:])
        return out, bad[0]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def tlc_viols(out):
    """What the specification reported with PrintT of "VIOL " and a JSON record (whole lines only)."""
    for line in out.split("\n"):
        if line.startswith('"VIOL '):
            try:
                yield json.loads(json.loads(line)[5:])
            except ValueError:
                pass


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def scratch(name):
    d = os.path.join(WORK, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d
