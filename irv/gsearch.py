"""Bounded native search over the real library: stand-in for what no discharged contract covers (labelled bounded in the
evidence, never counted as proved) and source of failing inputs when a GEMM-level obligation fails."""
import os
from . import build
from .runner import SEED, TIER, Task

SRC = os.path.join(build.VERIF, "search", "gemm_search.cc")
ARM = ("aarch64", "armhf")


def variant(pipe, kind):
    """kind: s scalar offsets, v vector offsets, l lhs-nonzero kernel, i signed 8-bit operands, t products below 4096"""
    d = "-DPIPE=%d" % pipe
    return d + {"s": "", "v": " -DVECOFF", "l": " -DLNZ", "i": " -DS8", "t": " -DB12"}[kind]


def binary(config, pipe, kind):
    return build.native([SRC], config, "gs-%d%s" % (pipe, kind), defs=variant(pipe, kind))


def one(config, pipe, kind, mode, secs, seed=None):
    b = binary(config, pipe, kind)
    seed = SEED if seed is None else seed
    rc, so, se = build.run_native(b, config, [mode, seed, secs], timeout=secs + 60)
    head = so.strip()[:600]
    if "FAIL " in so and "NOFAIL" not in so:
        lines = so.strip().splitlines()
        return {"obligation": lines[0], "inputs": lines[1] if len(lines) > 1 else "", "native_output": head,
                "how": "seeded native search", "replay_cmd": "gemm_search(%s, config %s) %s %s %s" % (
                    variant(pipe, kind), config, mode, seed, secs)}, head
    if rc == -999:
        return {"obligation": "FAIL the call does not return", "inputs": head, "native_output": "timeout", "how": "seeded native search",
                "replay_cmd": "gemm_search(%s, config %s) %s %s" % (variant(pipe, kind), config, mode, seed)}, "timeout"
    return None, "rc=%d %s" % (rc, head)


def search_task(config, pipe, kind, mode, secs):
    w, note = one(config, pipe, kind, mode, secs)
    return {"obls": [], "ok_empty": True, "found": w,
            "bounded": "native %s pipe=%d%s [%s] %ss: %s" % (mode, pipe, kind, config, secs, note)}


def tasks(mode, sets, secs, configs):
    out = []
    for c in configs:
        for p, k in sets:
            if k in "li" and c not in ARM or k == "t" and c != "armhf":
                continue
            t = Task("search/%s/%d%s" % (c, p, k), search_task, timeout=secs + 90, weight=0.5, config=c, pipe=p, kind=k, mode=mode, secs=secs)
            out.append(t)
    return out


def witness_for(mode, sets, secs=25):
    """witness function: searches for a failing input once a proof obligation of the same configuration failed"""
    def w(task, result, prop):
        notes = []
        c = task.kw.get("config", "x86_default")
        for p, k in sets:
            if k in "li" and c not in ARM or k == "t" and c != "armhf":
                continue
            try:
                f, note = one(c, p, k, mode, secs, seed=SEED + 100)
            except build.BuildError as e:
                return None, "native build failed: %s" % str(e)[:300]
            if f:
                f["how"] = "seeded native search after the proof failed"
                return f, ""
            notes.append("pipe %d%s: %s" % (p, k, note[:120]))
        return None, "; ".join(notes)
    return w


def generic(name, srcs, defs=""):
    """a stand-alone search program (usage PROP seed seconds) -> (task maker, witness maker)"""
    def one_(config, mode, secs, seed):
        b = build.native([s if os.path.isabs(s) else os.path.join(build.VERIF, "search", s) for s in srcs], config, name, defs=defs)
        rc, so, se = build.run_native(b, config, [mode, seed, secs], timeout=secs + 60)
        head = so.strip()[:600]
        if "FAIL " in so and "NOFAIL" not in so:
            ls = so.strip().splitlines()
            return {"obligation": ls[0], "inputs": ls[1] if len(ls) > 1 else "", "native_output": head, "how": "seeded native search",
                    "replay_cmd": "%s (config %s) %s %s %s" % (name, config, mode, seed, secs)}, head
        if rc == -999:
            return {"obligation": "FAIL the call does not return", "inputs": head, "native_output": "timeout", "how": "seeded native search",
                    "replay_cmd": "%s (config %s) %s %s" % (name, config, mode, seed)}, "timeout"
        return None, "rc=%d %s" % (rc, head)

    def task(config, mode, secs):
        w, note = one_(config, mode, secs, SEED)
        return {"obls": [], "ok_empty": True, "found": w, "bounded": "native %s %s [%s] %ss: %s" % (name, mode, config, secs, note)}

    def tasks_(mode, secs, configs):
        return [Task("search/%s/%s" % (name, c), task, timeout=secs + 90, weight=0.5, config=c, mode=mode, secs=secs) for c in configs]

    def witness(mode, secs=25):
        def w(t, result, prop):
            c = t.kw.get("config", "x86_default")
            try:
                f, note = one_(c, mode, secs, SEED + 100)
            except build.BuildError as e:
                return None, "native build failed: %s" % str(e)[:300]
            if f:
                f["how"] = "seeded native search after the proof failed"
            return f, note
        return w
    return tasks_, witness
