"""Produces the program facts for /repo's current working tree.

Builds the compiler driver when needed, compiles the workspace through it (type checking only, nothing of
glicol is executed) and returns the path of the facts file.  Results are cached under build/ by a hash of
every source file involved, so that several checks of the same tree share one extraction."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CRATES = "glicol,glicol_parser,glicol_synth,wasmhost"


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def walk(root, exts, skip=("target", ".git", "node_modules", "build", "tests", "examples", "benches")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("%s failed\n%s" % (what, p.stdout[-4000:]))


def driver():
    src = walk(os.path.join(HERE, "driver"), (".rs", ".toml", ".lock"))
    want = hash_files(src)
    exe = os.path.join(BUILD, "driver", "release", "vdriver")
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe, want
    run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
        os.path.join(HERE, "driver"), env(), "building the driver")
    with open(stamp, "w") as f:
        f.write(want)
    return exe, want


def witnesses(e):
    """compiles every witness against the metadata just produced; returns {name: [expectation, outcome, error codes]}"""
    outs = glob.glob(os.path.join(BUILD, "h", "debug", "build", "*", "*", "out")) + [os.path.join(BUILD, "h", "debug", "deps")]
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "--cap-lints", "allow"]
    for d in outs:
        if os.path.isdir(d):
            cmd += ["-L", "dependency=" + d]
    for c in ("glicol", "glicol_synth", "glicol_parser"):
        m = [f for d in outs for f in glob.glob(os.path.join(d, "lib%s-*.rmeta" % c))]
        if len(m) != 1:
            raise ExtractError("metadata of %s: %d files" % (c, len(m)))
        cmd += ["--extern", "%s=%s" % (c, m[0])]
    e = dict(e)
    e.pop("RUSTC_WRAPPER", None)
    ver = hashbrown_of(outs)
    cmd += ["--extern", "hashbrown=" + ver]
    res = {}
    procs = []
    tmpd = os.path.join(BUILD, "w")
    os.makedirs(tmpd, exist_ok=True)
    for w in sorted(glob.glob(os.path.join(HERE, "harness", "witness", "*.rs"))):
        name = os.path.basename(w)[:-3]
        procs.append((name, w, subprocess.Popen(cmd + [w, "-o", os.path.join(tmpd, name + ".rmeta")], env=e, stdout=subprocess.DEVNULL,
                                                stderr=subprocess.PIPE, text=True)))
    for name, w, p in procs:
        err = p.communicate()[1]
        codes, msgs = [], []
        for line in err.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                if d.get("code"):
                    codes.append(d["code"]["code"])
                msgs.append(d["message"])
        first = open(w).readline().strip()
        res[name] = {"expect": first.split("expect:", 1)[1].strip(), "ok": p.returncode == 0, "codes": codes, "messages": msgs[:4]}
    shutil.rmtree(tmpd)
    return res


def hashbrown_of(outs):
    """the hashbrown the synth crate is built against (lock file of the harness names one 0.14)"""
    import re
    lock = open(os.path.join(HERE, "harness", "Cargo.lock")).read()
    want = re.search(r'name = "glicol_synth".*?dependencies = \[(.*?)\]', lock, re.S).group(1)
    m = re.search(r'"hashbrown ?([\d.]*)"', want)
    c = [f for d in outs for f in glob.glob(os.path.join(d, "libhashbrown-*.rmeta"))]
    if len(c) == 1:
        return c[0]
    for f in c:
        dep = f.replace("/lib", "/")[:-6] + ".d"
        if os.path.exists(dep) and ("hashbrown-" + m.group(1)) in open(dep).read():
            return f
    raise ExtractError("cannot tell which hashbrown the synth crate uses")


def source_files():
    return walk(os.path.join(REPO, "rs"), (".rs", ".toml", ".pest", ".lock"))


def facts():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = driver()
        key = hash_files(source_files() + walk(os.path.join(HERE, "harness"), (".rs", ".toml")) ) + dh[:8]
        out = os.path.join(BUILD, "facts-%s.jsonl" % key)
        if os.path.exists(out):
            os.utime(out)
            return out
        old = sorted(glob.glob(os.path.join(BUILD, "facts-*.jsonl")), key=os.path.getmtime)
        for f in old[:-1]:
            for g in glob.glob(f + "*"):
                os.unlink(g)
        e = env()
        e["LD_LIBRARY_PATH"] = subprocess.check_output(["rustc", "--print", "sysroot"], env=e, text=True).strip() + "/lib"
        e["RUSTC_WRAPPER"] = exe
        tmp = os.path.join(BUILD, "facts.part")
        for g in glob.glob(tmp + "*"):
            os.unlink(g)
        e.update(VDRIVER_CRATE="vharness", VDRIVER_OUT=tmp, VDRIVER_ROOTS=CRATES, VDRIVER_LINT=CRATES,
                 VDRIVER_FULL="vharness,core,alloc," + CRATES,
                 CARGO_INCREMENTAL="0", RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0", CARGO_TARGET_DIR=os.path.join(BUILD, "h"))
        # force the workspace crates through the driver whatever the file times say
        for pat in ("glicol*", "wasmhost*", "vharness*"):
            for sub in (".fingerprint", "build"):
                for d in glob.glob(os.path.join(BUILD, "h", "debug", sub, pat)):
                    shutil.rmtree(d)
        run(["cargo", "check", "--offline", "--locked"], os.path.join(HERE, "harness"), e, "compiling the workspace")
        if not os.path.exists(tmp):
            raise ExtractError("the driver wrote no facts")
        with open(tmp + ".witness", "w") as f:
            json.dump(witnesses(e), f)
        for g in sorted(glob.glob(tmp + "*"), reverse=True):
            os.rename(g, out + g[len(tmp):])
        return out


if __name__ == "__main__":
    print(facts())
