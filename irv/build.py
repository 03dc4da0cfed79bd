"""Mechanical extraction of verifiable IR (and native replay binaries) from /repo."""
import threading, os, subprocess, shutil, tempfile, atexit, hashlib, re, sys
from . import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IRV_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
OPT = "/usr/bin/opt"

CONFIGS = {
    "x86_default": dict(cf="", gxx="g++", run=[]),
    "x86_sse4": dict(cf="-msse4.1", gxx="g++", run=[]),
    "x86_avx2": dict(cf="-mavx2 -mfma -DGEMMLOWP_ENABLE_AVX2", gxx="g++", run=[]),
    "aarch64": dict(cf="--target=aarch64-linux-gnu", gxx="aarch64-linux-gnu-g++", gf="",
                    run=["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "armhf": dict(cf="--target=arm-linux-gnueabihf -march=armv7-a -mfpu=neon -mfloat-abi=hard",
                  gxx="arm-linux-gnueabihf-g++", gf="-mfpu=neon", run=["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]),
}

_scratch = None
_lock = threading.Lock()
_locks = {}


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="irv.")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def after_fork():
    """a lock held by a thread of the parent is not released in the child"""
    global _lock
    _lock = threading.Lock()
    _locks.clear()


class BuildError(Exception):
    pass


DEFAULT_PASSES = ("cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,simplifycfg,"
                  "instsimplify,adce,loop-simplify),globaldce")


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, **kw)


FOLD = ["-two-entry-phi-node-folding-threshold=400", "-phi-node-folding-threshold=400", "-bonus-inst-threshold=40"]


def emit_ir(harness, config, defs="", passes=None, wrapv=False, extra="", tag="", fold=None, keep=()):
    """clang -> IR text of a harness translation unit over /repo's headers"""
    src = harness if os.path.isabs(harness) else os.path.join(VERIF, "harness", harness)
    key = hashlib.sha1(repr((src, config, defs, passes, wrapv, extra, fold, keep)).encode()).hexdigest()[:12]
    base = os.path.join(scratch(), "%s-%s-%s" % (os.path.basename(harness), config, key))
    out = base + ".opt.ll"
    if os.path.exists(base + ".err"):
        raise BuildError(open(base + ".err").read())
    if not os.path.exists(out):
        cmd = [CLANG, "-std=c++11", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-O1", "-Xclang",
               "-disable-llvm-passes", "-fno-exceptions", "-fno-rtti", "-ffp-contract=off", "-fno-math-errno",
               "-S", "-emit-llvm"] + CONFIGS[config]["cf"].split() + defs.split() + extra.split()
        if wrapv:
            cmd.append("-fwrapv")
        cmd += [src, "-o", base + ".ll"]
        p = sh(cmd)
        if p.returncode:
            msg = "clang failed on %s [%s]: %s" % (harness, config, "\n".join(
                l for l in p.stderr.splitlines() if "error:" in l)[:1500])
            open(base + ".err", "w").write(msg)
            raise BuildError(msg)
        tmp = out + ".tmp%d" % os.getpid()
        ps = passes or DEFAULT_PASSES
        fa = []
        if keep:
            # functions replaced by their contract at the call site are not inlined
            txt = open(base + ".ll").read()
            for m in re.finditer(r"^define [^@\n]*@(\S+?)\(", txt, re.M):
                if any(re.search(k, m.group(1)) for k in keep):
                    fa.append("--force-attribute=%s:noinline" % m.group(1))
                    fa.append("--force-remove-attribute=%s:alwaysinline" % m.group(1))
            if fa:
                ps = "forceattrs," + ps
        p = sh([OPT, "-S", "-passes=" + ps] + fa + ["-inline-threshold=100000000",
                                                   "-inline-cost-full"] + (FOLD if (wrapv if fold is None else fold) else []) + [base + ".ll", "-o", tmp])
        if p.returncode:
            raise BuildError("opt failed: " + p.stderr[:2000])
        os.rename(tmp, out)
    return out


_mods = {}


def module(*a, **k):
    f = emit_ir(*a, **k)
    if f not in _mods:
        _mods[f] = ir.Parser(open(f).read())
    return _mods[f]


def native(srcs, config, name, defs="", opt="-O1", extra="", std="-std=c++11", timeout=300):
    """native binary for replay (same compilers as the repository's build)"""
    c = CONFIGS[config]
    out = os.path.join(scratch(), "bin-%s-%s" % (name, config))
    key = out + ".ok"
    with _lock:
        lk = _locks.setdefault(out, threading.Lock())
    with lk:
        return _native(srcs, c, out, key, defs, opt, extra, std, timeout)


def _native(srcs, c, out, key, defs, opt, extra, std, timeout):
    if os.path.exists(key):
        return out
    if os.path.exists(out + ".err"):
        raise BuildError(open(out + ".err").read())
    gf = c.get("gf", c["cf"])
    cmd = [c["gxx"], std, "-w", opt, "-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + gf.split() + \
        defs.split() + extra.split() + list(srcs) + ["-o", "%s.t%d" % (out, os.getpid()), "-lpthread"]
    p = sh(cmd, timeout=timeout)
    if p.returncode:
        open(out + ".err", "w").write("native build failed: " + p.stderr[:2000])
        raise BuildError("native build failed: " + p.stderr[:3000])
    os.rename("%s.t%d" % (out, os.getpid()), out)
    open(key, "w").close()
    return out


def run_native(binary, config, args, timeout=120, env=None):
    cmd = CONFIGS[config]["run"] + [binary] + [str(a) for a in args]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return -999, (ex.stdout or b"").decode("latin1") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), "timeout"


def ob_names(mod):
    return sorted(n[4:] for n in mod.funcs if n.startswith("@ob_"))
