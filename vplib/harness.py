"""Builds and runs the concrete side: the contracts' clauses as executable oracles over the real crate.

The crate as a whole does not compile at the pinned commit; like /opt/vp/subset.py, a package is laid out
from symlinks to /repo's files minus the modules that need the older sqlparser API.  It lives in
/verif/.build (git-ignored), and every harness is one integration-test target of it.
"""
import json, os, re, shutil, subprocess, sys, time, fcntl

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD", f"{HERE}/.build")
PKG = f"{BUILD}/pkg"
TARGET = f"{BUILD}/target"

EXCLUDE = ["src/sql/execution/expression_parser.rs", "src/sql/planner/plan_builder.rs", "src/sql/planner/query_planner.rs",
           "src/sql/execution/execution_engine.rs", "src/common/db_instance.rs", "src/server/server_impl.rs",
           "src/server/connection.rs", "src/client", "src/cli.rs", "src/main.rs"]
MODS = {"src/lib.rs": ["cli", "client"], "src/common/mod.rs": ["db_instance"], "src/server/mod.rs": ["server_impl", "connection"],
        "src/sql/execution/mod.rs": ["expression_parser", "execution_engine"], "src/sql/planner/mod.rs": ["plan_builder", "query_planner"]}

def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_PROFILE_TEST_DEBUG="line-tables-only", CARGO_TARGET_DIR=TARGET)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    return e

def put(path, text):
    if os.path.islink(path):
        os.remove(path)
    if not os.path.exists(path) or open(path, encoding="utf-8").read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w", encoding="utf-8").write(text)

def layout(harnesses):
    os.makedirs(PKG, exist_ok=True)
    want = set()
    for d, dirs, files in os.walk(f"{REPO}/src"):
        for f in files:
            rel = os.path.relpath(f"{d}/{f}", REPO)
            if not any(rel == e or rel.startswith(e + "/") for e in EXCLUDE):
                want.add(rel)
    for d, dirs, files in os.walk(f"{PKG}/src", topdown=False):
        for f in files:
            if os.path.relpath(f"{d}/{f}", PKG) not in want:
                os.remove(f"{d}/{f}")
        if not os.listdir(d):
            os.rmdir(d)
    for rel in want:
        src, dst = f"{REPO}/{rel}", f"{PKG}/{rel}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if rel in MODS:
            t = open(src, encoding="utf-8").read()
            for m in MODS[rel]:
                t = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", t)
            put(dst, t)
        elif not (os.path.islink(dst) and os.readlink(dst) == src):
            if os.path.lexists(dst):
                os.remove(dst)
            os.symlink(src, dst)
    man = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    man = re.sub(r"(?s)\[\[bench\]\]\nname = \"[^\"]*\"\nharness = false\n", "", man)
    man = re.sub(r"(?m)^\[package\]$", "[package]\nautotests = false\nautobins = false\nautobenches = false\nautoexamples = false", man, count=1)
    for h in harnesses:
        man += f'\n[[test]]\nname = "vp_{h}"\npath = "tests/vp_{h}.rs"\nharness = false\n'
        put(f"{PKG}/tests/vp_{h}.rs", open(f"{HERE}/harness/{h}.rs", encoding="utf-8").read())
    man += "\n[workspace]\n"
    put(f"{PKG}/Cargo.toml", man)
    put(f"{PKG}/tests/common.rs", open(f"{HERE}/harness/common.rs", encoding="utf-8").read())
    for f in ("Cargo.lock", "build.rs"):
        dst = f"{PKG}/{f}"
        if os.path.exists(f"{REPO}/{f}"):
            put(dst, open(f"{REPO}/{f}", encoding="utf-8").read())

def seed_target():
    """Third-party build products from /opt/vp/target spare a rebuild; ferrite's own are never taken."""
    if os.path.exists(f"{TARGET}/debug/.seeded"):
        return
    src = "/opt/vp/target/debug"
    os.makedirs(f"{TARGET}/debug", exist_ok=True)
    if os.path.isdir(f"{src}/.fingerprint"):
        for sub in ("deps", "build", ".fingerprint"):
            os.makedirs(f"{TARGET}/debug/{sub}", exist_ok=True)
            for e in os.listdir(f"{src}/{sub}"):
                if re.match(r"(lib)?(ferrite|integration_tests)-", e):
                    continue
                a, b = f"{src}/{sub}/{e}", f"{TARGET}/debug/{sub}/{e}"
                if os.path.lexists(b):
                    continue
                subprocess.run(["cp", "-a", a, b], check=False)
    open(f"{TARGET}/debug/.seeded", "w").write("")

class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def harness_names():
    return sorted(f[:-3] for f in os.listdir(f"{HERE}/harness") if f.endswith(".rs") and f != "common.rs")

def build(names):
    """-> (dict name -> executable, error text)"""
    with lock():
        layout(harness_names())
        seed_target()
        cmd = ["cargo", "test", "--no-run", "--offline", "--message-format=json"]
        for n in names:
            cmd += ["--test", f"vp_{n}"]
        p = subprocess.run(cmd, cwd=PKG, env=env(), capture_output=True, text=True)
        exes, errs = {}, []
        for ln in p.stdout.split("\n"):
            if not ln.startswith("{"):
                continue
            m = json.loads(ln)
            if m.get("reason") == "compiler-artifact" and m.get("executable"):
                exes[m["target"]["name"][3:]] = m["executable"]
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"].get("rendered") or m["message"]["message"])
        if p.returncode != 0 and not errs:
            errs.append(p.stderr[-3000:])
        return exes, "\n".join(errs[:6])

def run(exe, timeout, only=None, seed=None, tier=None, prop=None):
    e = env()
    if prop:
        e["VP_PROP"] = prop
    if only:
        e["VP_ONLY"] = only
    if seed is not None:
        e["VERIF_SEED"] = str(seed)
    if tier is not None:
        e["VERIF_TIER"] = tier
    scratch = f"{BUILD}/scratch.{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    e["VP_SCRATCH"] = scratch
    e["TMPDIR"] = scratch
    t0 = time.time()
    out = {"fails": [], "done": None, "seconds": 0, "rc": None}
    try:
        p = subprocess.run([exe], cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        so, rc = p.stdout.decode("utf-8", "replace"), p.returncode
        err = p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        so, rc, err = (x.stdout or b"").decode("utf-8", "replace"), "timeout", ""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for ln in so.split("\n"):
        if ln.startswith("FAIL "):
            out["fails"].append(json.loads(ln[5:]))
        elif ln.startswith("DONE "):
            out["done"] = json.loads(ln[5:])
    out["rc"], out["seconds"], out["stderr"] = rc, round(time.time() - t0, 2), err[-2000:]
    return out
