"""Shared machinery: builds the engine, regenerates the IR from /repo, runs
harnesses through the symbolic executor, replays counterexamples natively."""
import argparse, json, os, re, threading, shutil, subprocess, sys, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
TARGET = os.environ.get("VC_TARGET", os.path.join(VERIF, "target"))
OUT = os.environ.get("VC_OUT", os.path.join(VERIF, "out"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"

def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e

class ToolError(Exception):
    pass

def run(cmd, timeout=900, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, **kw)
    if r.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def llvm_bin(name):
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    p = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    b = os.path.join(p, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)
    if not os.path.exists(b):
        raise ToolError("missing " + b)
    return b

def build_engine():
    t = os.path.join(TARGET, "engine")
    run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "engine/Cargo.toml"), "--target-dir", t], env=env())
    return os.path.join(t, "release/symex")

# Functions replaced by engine built-ins (see DESIGN.md, "Stubs").
STUBS = [
    re.compile(r"4core9panicking"),
    re.compile(r"capacity_overflow"),
    re.compile(r"18handle_alloc_error|17handle_alloc_error"),
    re.compile(r"8hash_one"),
    re.compile(r"rust_panic|rust_begin_unwind|begin_panic"),
    re.compile(r"3std9panicking"),
    re.compile(r"3std7process5abort|abort_internal"),
]
# error messages are not modelled where they hold symbolic numbers
GROUP_STUBS = {"shp": ["12format_inner"], "join": ["12format_inner"]}
NOSTUB = re.compile(r"drop_glue|drop_in_place|panicking11panic_count|panic_count|9panicking9panicking|try_with|is_zero_slow_path")

def stubbed(name):
    if NOSTUB.search(name):
        return False
    return any(r.search(name) for r in STUBS)

def stub_ll(src, dst, extra=()):
    extra = [re.compile(x) for x in extra]
    names = []
    skip = False
    with open(src) as f, open(dst, "w") as o:
        for l in f:
            if skip:
                if l.startswith("}"):
                    skip = False
                continue
            if l.startswith("define "):
                m = re.search(r'@("[^"]+"|[-a-zA-Z$._0-9]+)\(', l)
                n = m.group(1).strip('"')
                if stubbed(n) or any(x.search(n) for x in extra):
                    names.append(n)
                    d = l.rstrip()
                    assert d.endswith("{"), d
                    d = d[:-1].rstrip()
                    d = re.sub(r"^define ", "declare ", d)
                    d = re.sub(r"\b(internal|private|hidden|protected|linkonce_odr|weak_odr|weak|dso_local|comdat)\b ?", "", d)
                    d = re.sub(r" personality ptr @\S+", "", d)
                    d = re.sub(r" !\w+ !\d+", "", d)
                    d = re.sub(r" align \d+$", "", d)
                    o.write(d + "\n")
                    skip = True
                    continue
            o.write(l)
    return names

def harness_src():
    return os.path.join(VERIF, "harness")

def entries(group):
    s = open(os.path.join(harness_src(), "src", group + ".rs")).read()
    return re.findall(r'extern "C" fn (h_\w+)', s)

def manifest(group):
    """The harness crate, pointed at REPO."""
    d = harness_src()
    if REPO == "/repo":
        return os.path.join(d, "Cargo.toml")
    with _LOCK:
        return _manifest(d)

_LOCK = threading.Lock()
_MADE = []
def _manifest(d):
    d2 = os.path.join(TARGET, "hcopy")
    if _MADE: return _MADE[0]
    if os.path.isdir(d2): shutil.rmtree(d2)
    shutil.copytree(d, d2, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(d2, "Cargo.toml")
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(p, "w").write(s)
    _MADE.append(p)
    return p

def build_ir(group, extra_stubs=()):
    t0 = time.time()
    t = os.path.join(TARGET, "ir-" + group)
    # the harness crate is always recompiled, so that its IR is always fresh
    for f in glob.glob(os.path.join(t, "release/deps/h*.ll")):
        os.remove(f)
    for f in glob.glob(os.path.join(t, "release/.fingerprint/h-*")):
        shutil.rmtree(f)
    run(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--offline", "--features", group, "--manifest-path", manifest(group), "--target-dir", t,
         "--", "--emit=llvm-ir", "-Csymbol-mangling-version=v0"],
        env=env(RUSTC_BOOTSTRAP="1", RUSTFLAGS="-C no-prepopulate-passes -Z inline-mir=no -Z ub-checks=no", CARGO_INCREMENTAL="0"))
    lls = glob.glob(os.path.join(t, "release/deps/h*.ll"))
    if not lls:
        raise ToolError("no IR was emitted")
    ll = max(lls, key=os.path.getmtime)
    opt = llvm_bin("opt")
    a, b, c = [os.path.join(t, x + ".ll") for x in ("a", "b", group)]
    ents = entries(group)
    run([opt, "-S", "-strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(ents), ll, "-o", a])
    names = stub_ll(a, b, list(extra_stubs) + GROUP_STUBS.get(group, []))
    run([opt, "-S", "-passes=globaldce,default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", b, "-o", c])
    for f in (ll, a, b):
        os.remove(f)
    return c, {"build_s": round(time.time() - t0, 1), "stubs": names, "ir_bytes": os.path.getsize(c)}

def build_native(group):
    """The same harnesses, linked against the real crate, for replaying models."""
    t = os.path.join(TARGET, "nat-" + group)
    os.makedirs(t, exist_ok=True)
    table = os.path.join(t, "table.rs")
    txt = "static TABLE: &[(&str, extern \"C\" fn())] = &[\n" + "".join('    ("%s", h::%s::%s),\n' % (e, group, e) for e in entries(group)) + "];\n"
    if not os.path.exists(table) or open(table).read() != txt:
        open(table, "w").write(txt)
    run(["cargo", "build", "--bin", "replay", "--profile", "replay", "--offline", "--features", group + ",replay", "--manifest-path", manifest(group), "--target-dir", t],
        env=env(HARNESS_TABLE=table))
    return os.path.join(t, "replay/replay")

def write_model(path, entry, params, model, note=""):
    with open(path, "w") as f:
        for l in note.splitlines():
            f.write("# %s\n" % l)
        f.write("entry %s\n" % entry)
        for p in params:
            f.write("param %d\n" % p)
        for (i, w, v) in model:
            f.write("v %d %d\n" % (i, v))

def replay(binary, path, timeout=60):
    """Returns (code, output): 0 completed, 1 check failed, 77 assumption false, other: crash."""
    try:
        r = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "timeout"

STOP = threading.Event()  # set once a violation has been replayed

def symex(engine, ll, entry, params, threads=8, time_s=300, extra=()):
    out = os.path.join(os.path.dirname(ll), "%s-%s-%d.json" % (entry, "_".join(map(str, params)), os.getpid()))
    cmd = [engine, ll, entry, "-p", ",".join(map(str, params)), "-j", str(threads), "-t", str(time_s), "-o", out] + list(extra)
    if STOP.is_set():
        return {"status": "stopped", "entry": entry, "params": params, "errors": [], "violations": [], "witnesses": []}
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    t0 = time.time()
    res = []
    th = threading.Thread(target=lambda: res.append(pr.communicate()[0]))
    th.start()
    late = False
    while th.is_alive():
        th.join(0.2)
        late = time.time() - t0 > time_s + 200
        if late or STOP.is_set():
            if pr.poll() is None:
                os.killpg(pr.pid, 9)
            th.join()
            break
    r = argparse.Namespace(stdout=(res or [""])[0] or "")
    if STOP.is_set() and not os.path.exists(out):
        return {"status": "stopped", "entry": entry, "params": params, "errors": [], "violations": [], "witnesses": []}
    if late:
        return {"status": "timeout", "entry": entry, "params": params, "errors": ["killed"], "violations": [], "witnesses": []}
    try:
        d = json.load(open(out))
        os.remove(out)
    except Exception:
        return {"status": "crash", "entry": entry, "params": params, "errors": [r.stdout[-2000:]], "violations": [], "witnesses": []}
    return d

if __name__ == "__main__":
    if sys.argv[1] == "ir":
        print(build_ir(sys.argv[2], sys.argv[3:]))
    elif sys.argv[1] == "engine":
        print(build_engine())
