"""Extraction: turn /repo's *current* source into analysable facts.

mir(crates)  -> typed, resolved MIR of the crates that compile offline (rustc_private driver)
Results are cached by content hash under /verif/.work (git-ignored), so an unchanged tree is not
re-extracted; any byte change in the inputs changes the key.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
MEMBERS = ["rust/jstprove_io", "rust/jstprove_onnx", "prover/utils", "prover/serdes_derive",
           "compiler/expander_compiler/macros"]
CRATES = {"jstprove_io": "rust/jstprove_io", "jstprove_onnx": "rust/jstprove_onnx", "utils": "prover/utils",
          "serdes_derive": "prover/serdes_derive", "macros": "compiler/expander_compiler/macros"}


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", PROTOC="/usr/bin/protoc", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=env(), text=True).strip()


def run(cmd, cwd=None, e=None, timeout=840):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return r.returncode, r.stdout


def build_tools():
    """mirdump (rustc_private driver) and srcdump (syn extractor)."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "tooltarget")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "mirdump"), e=e)
    if rc:
        raise ExtractError("mirdump does not build:\n" + out[-3000:])
    return os.path.join(WORK, "tooltarget", "debug", "mirdump")


def tree_hash(dirs, extra=()):
    h = hashlib.sha256()
    files = []
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".proto", ".lock")):
                    files.append(os.path.join(root, f))
    for f in list(files) + list(extra):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def make_ws(ws, members):
    os.makedirs(ws, exist_ok=True)
    for d in ("rust", "prover", "compiler"):
        p = os.path.join(ws, d)
        if not os.path.islink(p):
            os.symlink(os.path.join(REPO, d), p)
        elif os.readlink(p) != os.path.join(REPO, d):
            os.unlink(p)
            os.symlink(os.path.join(REPO, d), p)
    src = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r"^members\s*=\s*\[(.*?)\]", src, re.M | re.S)
    if not m:
        raise ExtractError("no workspace member list in Cargo.toml")
    new = "members = [\n" + "".join(f'    "{x}",\n' for x in members) + "]"
    open(os.path.join(ws, "Cargo.toml"), "w").write(src[:m.start()] + new + src[m.end():])
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))


class lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def mir(crates=("jstprove_io", "jstprove_onnx", "utils", "serdes_derive", "macros")):
    """Returns {crate: parsed JSON}. Rebuilds from the working tree when any input changed."""
    with lock():
        driver = build_tools()
        dh = hashlib.sha256(open(driver, "rb").read()).hexdigest()[:12]
        key = tree_hash(MEMBERS, [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]) + dh
        out = os.path.join(WORK, "mir", key)
        if not os.path.exists(os.path.join(out, "done")):
            shutil.rmtree(os.path.join(WORK, "mir"), ignore_errors=True)
            os.makedirs(out)
            ws = os.path.join(WORK, "ws")
            make_ws(ws, MEMBERS)
            tgt = os.path.join(WORK, "target")
            for prof in ("debug",):
                fp = os.path.join(tgt, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith(("jstprove", "utils-", "serdes_derive", "macros-", "expander_compiler_macros")) :
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            # newer cargo layout: target/debug/build/<pkg>/<hash>/fingerprint
            bd = os.path.join(tgt, "debug", "build")
            if os.path.isdir(bd):
                for x in os.listdir(bd):
                    if x in CRATES or x.startswith("jstprove") or x in ("utils", "macros", "serdes_derive"):
                        shutil.rmtree(os.path.join(bd, x), ignore_errors=True)
            e = env()
            e.update(RUSTC_WORKSPACE_WRAPPER=driver, MIRDUMP_OUT=out, MIRDUMP_CRATES=",".join(CRATES),
                     LD_LIBRARY_PATH=sysroot() + "/lib", CARGO_TARGET_DIR=tgt)
            # the same unit graph as /opt/vp/build.sh (its feature `profile` switches Timer on)
            cmds = [["cargo", "+nightly", "check", "--offline", "--workspace", "--lib"],
                    ["cargo", "+nightly", "check", "--offline", "-p", "utils", "--features", "profile", "--lib"]]
            for c in cmds:
                rc, o = run(c, cwd=ws, e=e)
                if rc:
                    raise ExtractError("the crates do not type-check:\n" + o[-4000:])
                if c is cmds[0]:
                    for n in CRATES:
                        if not os.path.exists(f"{out}/{n}.json"):
                            raise ExtractError(f"no MIR for {n}:\n" + o[-2000:])
                    os.rename(f"{out}/utils.json", f"{out}/utils_default.json")
            open(os.path.join(out, "done"), "w").write("ok")
        res = {}
        for n in crates:
            with open(f"{out}/{n}.json") as f:
                res[n] = json.load(f)
        return res


# ---- crates whose external dependencies are not available here: type-checked against stand-ins (/verif/stubs)
# crate name -> package (None: the package of that name)
STUBBED = ["arith", "babybear", "goldilocks", "mersenne31", "gf2", "gf2_128", "polynomials", "circuit", "gkr_engine", "gkr_hashers", "transcript",
           "serdes", "sumcheck", "gkr", "poly_commit", "tree", "utils", "expander_compiler", "circuit_std_rs", "jstprove_circuits", "jstprove_io", "jstprove_onnx", "witness", "ndarray"]
SETS = {"gkr": ["gkr"], "circuits": ["jstprove_circuits"], "derive": ["witness"]}


def make_stub_ws(ws):
    """copies of the source trees, with the manifests of /verif/stubs"""
    stubs = os.path.join(VERIF, "stubs")
    for d in ("rust", "prover", "compiler"):
        shutil.rmtree(os.path.join(ws, d), ignore_errors=True)
        shutil.copytree(os.path.join(REPO, d), os.path.join(ws, d), ignore=shutil.ignore_patterns("target", "*.onnx", "*.bin", "data", "*.msgpack"))
    shutil.rmtree(os.path.join(ws, "crates"), ignore_errors=True)
    shutil.copytree(os.path.join(stubs, "crates"), os.path.join(ws, "crates"))
    shutil.copytree(os.path.join(stubs, "slices"), ws, dirs_exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(stubs, f), os.path.join(ws, f))
    p = os.path.join(ws, "prover/sumcheck/Cargo.toml")
    s = open(p).read()
    s = re.sub(r"(?m)^\[target\.'cfg\(target_os = \"macos\"\)'\.dependencies\]\n(.+\n)*", "", s)
    s = re.sub(r"(?m)^metal = .*$", "metal = []", s)
    open(p, "w").write(s)


def stub_mir(which):
    """MIR of the crates reachable from the packages of SETS[which], with one name space; raises ExtractError when the
    stand-ins do not fit the current source."""
    with lock():
        driver = build_tools()
        dh = hashlib.sha256(open(driver, "rb").read()).hexdigest()[:12]
        sh = hashlib.sha256()
        for root, ds, fs in sorted(os.walk(os.path.join(VERIF, "stubs"))):
            for f in sorted(fs):
                sh.update(open(os.path.join(root, f), "rb").read())
        key = which + tree_hash(["rust", "prover", "compiler"]) + dh + sh.hexdigest()[:8]
        out = os.path.join(WORK, "smir", key)
        if not os.path.exists(os.path.join(out, "done")):
            os.makedirs(os.path.join(WORK, "smir"), exist_ok=True)
            for x in os.listdir(os.path.join(WORK, "smir")):
                if x.startswith(which):
                    shutil.rmtree(os.path.join(WORK, "smir", x), ignore_errors=True)
            os.makedirs(out)
            ws = os.path.join(WORK, "sws")
            os.makedirs(ws, exist_ok=True)
            make_stub_ws(ws)
            tgt = os.path.join(WORK, "starget")
            for sub in (".fingerprint", "build"):
                fp = os.path.join(tgt, "debug", sub)
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        n = x.replace("-", "_")
                        if any(n == c or n.startswith(c + "_") for c in STUBBED + ["circuit_std_rs", "jstprove", "macros", "serdes_derive"]):
                            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            e = env()
            e.update(RUSTC_WORKSPACE_WRAPPER=driver, MIRDUMP_OUT=out, MIRDUMP_CRATES=",".join(STUBBED), MIRDUMP_KEYS=",".join(STUBBED + ["ndarray", "ethnum"]),
                     LD_LIBRARY_PATH=sysroot() + "/lib", CARGO_TARGET_DIR=tgt)
            rc, o = run(["cargo", "+nightly", "check", "--offline", "--lib"] + [y for x in SETS[which] for y in ("-p", x)], cwd=ws, e=e)
            if rc:
                raise ExtractError("the crates do not type-check against the stand-ins:\n" + o[-4000:])
            shutil.rmtree(ws, ignore_errors=True)
            open(os.path.join(out, "done"), "w").write("ok")
        res = {}
        for n in STUBBED:
            if os.path.exists(f"{out}/{n}.json"):
                with open(f"{out}/{n}.json") as f:
                    res[n] = json.load(f)
        return res


if __name__ == "__main__":
    t = time.time()
    r = mir()
    for n, v in r.items():
        print(n, len(v["fns"]), "bodies")
    print(f"{time.time()-t:.1f}s")
