"""Check runner: runs proof tasks in parallel, replays counterexamples natively, writes evidence."""
import os, sys, json, time, multiprocessing as mp, resource, signal, traceback, hashlib
from . import build, solve, term as T, exec as X
from .ir import IRUnsupported

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 8)

TRUSTED = [
    "clang 18 front end and the listed opt passes (IR extraction of /repo's current headers)",
    "irv: LLVM-IR semantics, intrinsic models and VC generation (/verif/irv)",
    "z3 4.x (python3-vt) and cvc5 1.1.2",
]


class Task:
    """fn(**kw) -> dict(obls=[...], covers=[...], extra={}) run in its own process"""

    def __init__(self, tid, fn, timeout=600, weight=1, witness=None, **kw):
        self.id, self.fn, self.timeout, self.kw, self.weight, self.witness = tid, fn, timeout, kw, weight, witness


def ob_dict(o):
    d = {"name": o.name, "where": o.where, "status": o.status, "detail": (o.detail or "")[:1500]}
    if o.res is not None:
        d.update(solver=o.res.solver, time=round(o.res.time, 4), reason=o.res.reason, approx=bool(o.res.approx))
        if o.res.model is not None and o.status != "discharged":
            d["model"] = {str(k): v for k, v in list(o.res.model.items())[:4000]}
    return d


def _child(fn, kw, conn, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        sys.setrecursionlimit(20000)
        T.reset()
        build.after_fork()
        try:
            r = fn(**kw)
        except (X.Undecided, IRUnsupported, X.SymbolicExit, build.BuildError) as e:
            r = {"obls": [], "error": "%s: %s" % (type(e).__name__, str(e)[:1500])}
        except MemoryError:
            r = {"obls": [], "error": "out of memory"}
        except Exception as e:
            r = {"obls": [], "error": "internal: " + traceback.format_exc()[-1500:]}
        r.setdefault("stats", {})
        r["stats"]["solver_s"] = round(solve.STATS["time"], 3)
        r["stats"]["queries"] = solve.STATS["queries"]
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_tasks(tasks, nproc=NPROC, mem=10 << 30, log=None, budget=None, stop=None):
    """returns {task id: result}; a task that dies or times out yields error. A result with a "followup" (fn keyword
    changes) is replaced by the result of that second attempt. stop(): abandon the rest (a violation is already shown)."""
    ctx = mp.get_context("fork")
    pend = sorted(tasks, key=lambda t: -t.weight)
    run, res = [], {}
    t_end = time.time() + budget if budget else None
    while pend or run:
        if stop and stop():
            for t, p, a, t0, lim in run:
                p.kill()
                p.join()
                a.close()
                res.setdefault(t.id, {"obls": [], "error": "abandoned: violation already found", "abandoned": True})
            for t in pend:
                res.setdefault(t.id, {"obls": [], "error": "abandoned: violation already found", "abandoned": True})
            break
        while pend and len(run) < nproc:
            t = pend.pop(0)
            if t_end and time.time() > t_end - 2:
                res.setdefault(t.id, {"obls": [], "error": "not started: check budget exhausted"})
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t.fn, t.kw, b, mem))
            p.start()
            b.close()
            lim = time.time() + t.timeout
            if t_end:
                lim = min(lim, t_end)
            run.append((t, p, a, time.time(), lim))
        time.sleep(0.01)
        for x in list(run):
            t, p, a, t0, lim = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {"obls": [], "error": "worker died"}
            elif not p.is_alive():
                r = {"obls": [], "error": "worker died (exit %s)" % p.exitcode}
                if a.poll():
                    try:
                        r = a.recv()
                    except EOFError:
                        pass
            elif time.time() > lim:
                r = {"obls": [], "error": "timeout after %.0fs" % (time.time() - t0)}
            if r is not None:
                if p.is_alive():
                    p.join(0.2)
                    if p.is_alive():
                        p.kill()
                p.join()
                a.close()
                r["wall"] = round(time.time() - t0, 2)
                prev = res.get(t.id)
                if prev is not None and prev.get("followup_note"):
                    r["fallback"] = prev["followup_note"]
                    if r.get("error") and not r["obls"]:      # second attempt gave nothing: keep the first answer
                        prev["error2"] = r["error"]
                        r = prev
                res[t.id] = r
                run.remove(x)
                if r.get("followup") and prev is None:
                    t2 = Task(t.id, t.fn, timeout=t.timeout, weight=t.weight, witness=t.witness, **t.kw)
                    t2.kw.update(r["followup"])
                    r["followup_note"] = r.get("followup_note", "first attempt failed")
                    pend.append(t2)
                if log:
                    log(t, r)
    return res


# ------------------------------------------------------------------ OB harness tasks
def ob_task(harness, config, ob, defs="", opts=None):
    opts = opts or {}
    if opts.get("contracts"):
        # modular step: callees named here are used through their contract (proved by the named check)
        from . import contracts
        keep, hooks = contracts.get(opts["contracts"])
        o2 = dict(opts)
        o2.pop("contracts")
        o2.update(keep=keep, hooks=hooks)
        why = None
        try:
            r = ob_task(harness, config, ob, defs, o2)
            if r.get("ok_empty") or all(o["status"] == "discharged" for o in r["obls"]):
                r["contracts"] = opts["contracts"]
                return r
            why = [o for o in r["obls"] if o["status"] != "discharged"][0]["name"]
        except (X.Undecided, IRUnsupported, X.SymbolicExit) as e:
            why = str(e)[:200]
            r = {"obls": [], "error": why}
        # second attempt: the callee bodies, bit-precisely
        for o in r["obls"]:
            if o["status"] == "refuted":
                o["approx"] = True
        f = dict(opts)
        f.pop("contracts")
        f["timeout"] = opts.get("fallback_timeout", 20)
        r["followup"] = {"opts": f}
        r["followup_note"] = "modular proof failed at: " + why
        return r
    mod = build.module(harness, config, defs=defs, wrapv=opts.get("wrapv", True), fold=opts.get("fold"),
                       keep=tuple(opts.get("keep", ())))
    if "@ob_" + ob not in mod.funcs:
        return {"obls": [], "ok_empty": True, "skipped": "not in this configuration"}
    en = X.Engine(mod, "bv", timeout=opts.get("timeout", 120), hooks=opts.get("hooks"))
    st = X.State()
    p = en.new_obj(st, "in", elem=4, sym=True)
    rets = en.run("@ob_" + ob, [p], st)
    obls = [ob_dict(o) for o in en.obls]
    if not rets and all(o["status"] == "discharged" for o in obls):
        return {"obls": obls, "error": "vacuous: no path reaches the end of the harness"}
    return {"obls": obls, "paths": len(rets), "covers": sorted(x for x in en.reached if x.startswith("cover:")),
            "steps": en.steps}


def ob_list(harness):
    import re
    return re.findall(r"^OB\((\w+)\)", open(os.path.join(VERIF, "harness", harness)).read(), re.M)


def ob_tasks(harness, configs, defs="", opts=None, only=None, timeout=600, prefix=""):
    """one task per obligation harness and configuration; IR is extracted here, in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    o = opts or {}

    def pre(c):
        try:
            kp = ()
            if o.get("contracts"):
                from . import contracts
                kp = contracts.get(o["contracts"])[0]
            build.emit_ir(harness, c, defs=defs, wrapv=o.get("wrapv", True), fold=o.get("fold"), keep=tuple(kp))
        except Exception:
            pass                      # each task then reports the extraction failure
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(pre, configs))
    return [Task("%s%s/%s/%s" % (prefix, harness.split(".")[0], c, n), ob_task, timeout=timeout, harness=harness, config=c,
                 ob=n, defs=defs, opts=opts)
            for c in configs for n in ob_list(harness) if only is None or only(n)]


DRIVER = r'''
#include "@HARNESS@"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
static jmp_buf jb; static int failed; static const char* fname; static std::int32_t in_[1 << 16];
extern "C" void __v_assert(bool c, const char* n) { if (!c && !failed) { failed = 1; fname = n; } }
extern "C" void __v_assume(bool c) { if (!c) longjmp(jb, 1); }
extern "C" void __v_cover(const char*) {}
typedef void (*obf)(const std::int32_t*);
struct Ent { const char* n; obf f; };
@DECLS@
static Ent tab[] = { @TABLE@ {0, 0} };
static void out(const char* why) {
  printf("FAIL %s\nINPUT", why);
  int n = @NIN@; while (n > 1 && in_[n - 1] == 0) n--;
  for (int i = 0; i < n; i++) printf(" %d", in_[i]);
  printf("\n"); fflush(stdout);
}
static void onsig(int s) { out(s == SIGABRT ? "library assertion or abort" : "crash"); _exit(3); }
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static std::int32_t val() {
  std::uint64_t r = rnd();
  switch (r & 7) {
    case 0: return (std::int32_t)(r >> 8) % 48;
    case 1: return (std::int32_t)((r >> 8) % 24);
    case 2: { std::int32_t b = (std::int32_t)(1u << ((r >> 8) & 31)); int d = (int)((r >> 16) % 5) - 2; b = (std::int32_t)((std::uint32_t)b + d); return (r >> 24) & 1 ? (std::int32_t)(0u - (std::uint32_t)b) : b; }
    case 3: { static const std::int32_t s[] = {(std::int32_t)0x80000000, 0x7fffffff, -1, 0, 1, 0x3fffffff, 0x40000000, (std::int32_t)0xc0000000, -32768, 32767, 255, 256, -128, 127, 65535, 65536}; return s[(r >> 8) & 15]; }
    case 4: return (std::int32_t)(std::int16_t)(r >> 8);
    default: return (std::int32_t)(r >> 16);
  }
}
int main(int argc, char** argv) {
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig);
  obf f = 0;
  for (Ent* e = tab; e < tab + sizeof(tab) / sizeof(tab[0]) - 1; e++) if (!strcmp(e->n, argv[1])) f = e->f;
  if (!f) { printf("NOOB\n"); return 4; }
  if (!strcmp(argv[2], "search")) {
    rs = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 12345; long n = atol(argv[4]); long ok = 0;
    static std::int32_t prev[@NIN@ + 1];
    for (long k = 0; k < n; k++) {
      int same = rnd() % 4;
      for (int i = 0; i < @NIN@; i++) {
        if (same == 0 && i && rnd() % 2) in_[i] = in_[i - 1];
        else if (same == 1 && i && rnd() % 3) in_[i] = (std::int32_t)((std::uint32_t)in_[i - 1] + (int)(rnd() % 3) - 1);
        else in_[i] = val();
      }
      failed = 0;
      if (setjmp(jb) == 0) { f(in_); ok++; }
      if (failed) { out(fname); return 3; }
    }
    printf("NOFAIL %ld of %ld satisfied the precondition\n", ok, n);
    return 0;
  }
  for (int i = 2; i < argc && i - 2 < @NIN@; i++) in_[i - 2] = (std::int32_t)strtoll(argv[i], 0, 10);
  if (setjmp(jb) == 0) f(in_); else { printf("PRE-FALSE\n"); return 5; }
  if (failed) { out(fname); return 3; }
  printf("PASS\n");
  return 0;
}
'''


def ob_driver(harness, config, defs="", nin=256, obs=None):
    """native replay binary: the same obligation functions over the same headers, compiled with the repository's compiler"""
    if obs is None:
        obs = ob_list(harness)
    h = hashlib.sha1((harness + defs).encode()).hexdigest()[:8]
    src = os.path.join(build.scratch(), "drv-%s-%s.cc" % (harness, h))
    if not os.path.exists(src):
        s = DRIVER.replace("@HARNESS@", os.path.join(VERIF, "harness", harness)).replace("@NIN@", str(nin))
        s = s.replace("@DECLS@", " ".join('extern "C" __attribute__((weak)) void ob_%s(const std::int32_t*);' % o for o in obs))
        s = s.replace("@TABLE@", " ".join('{"%s", ob_%s},' % (o, o) for o in obs))
        open(src, "w").write(s)
    return build.native([src], config, "drv-%s-%s" % (harness, h), defs=defs)


def ob_witness(task, result, prop):
    """try to turn failed/undecided obligations of an OB task into a failing input of the real code"""
    kw = task.kw
    try:
        drv = ob_driver(kw["harness"], kw["config"], kw.get("defs", ""))
    except Exception as e:
        return None, "native replay build failed: %s" % str(e)[:500]
    notes = []
    for o in result["obls"]:
        if o["status"] == "discharged" or "model" not in o:
            continue
        vec = {}
        for k, v in o["model"].items():
            if k.startswith("in["):
                vec[int(k[3:-1])] = int(v)
        n = max(vec) + 1 if vec else 1
        args = [vec.get(i, 0) for i in range(n)]
        args = [a - (1 << 32) if a >= (1 << 31) else a for a in args]
        rc, so, se = build.run_native(drv, kw["config"], [kw["ob"]] + args)
        if "FAIL" in so:
            return {"obligation": o["name"], "inputs": args, "native_output": so.strip(), "how": "verifier counterexample"}, ""
        notes.append("model of '%s' replayed natively: rc=%d %s" % (o["name"], rc, so.strip()[:200]))
    n = 1000000 if kw["config"].startswith("x86") else 200000
    rc, so, se = build.run_native(drv, kw["config"], [kw["ob"], "search", SEED, n], timeout=40)
    if "FAIL" in so:
        ln = [l for l in so.splitlines() if l.startswith("INPUT")]
        return {"obligation": so.splitlines()[0], "inputs": [int(x) for x in ln[0].split()[1:]] if ln else [],
                "native_output": so.strip(), "how": "seeded native search after the proof failed"}, ""
    notes.append("native search: rc=%d %s" % (rc, so.strip()[:200]))
    return None, "; ".join(notes)


# ------------------------------------------------------------------ driver
def run_check(prop, tasks, functions, assumptions, level="proof", bounded=None, budget=800, extra_cov=None, verbose=None):
    """tasks: list of Task. bounded: list of Task-like callables run always (labelled bounded stand-ins)"""
    t0 = time.time()
    verbose = os.environ.get("IRV_VERBOSE") if verbose is None else verbose

    def log(t, r):
        if verbose:
            nd = sum(o["status"] == "discharged" for o in r["obls"])
            print("  [%6.1fs] %-50s %d/%d %s %.1fs" % (time.time() - t0, t.id, nd, len(r["obls"]), r.get("error", ""), r["wall"]),
                  file=sys.stderr)
            for o in r["obls"]:
                if o["status"] != "discharged":
                    print("      ", o["status"], o["name"], "|", o["where"][:160], "|", str(o.get("reason"))[:200],
                          "|", str(o.get("model"))[:600], file=sys.stderr)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    build.scratch()
    from concurrent.futures import ThreadPoolExecutor
    wpool = ThreadPoolExecutor(4)
    found_any = []
    futs = {}
    byid = {t.id: t for t in tasks}
    t_w = t0 + budget + 60

    def search1(t, r):
        wfn = t.witness or (ob_witness if "ob" in t.kw else None)
        if wfn is None:
            return None, "no native search for this task"
        if found_any:
            return None, "violation already found"
        if time.time() > t_w:
            return None, "search budget exhausted"
        try:
            w, why = wfn(t, r, prop)
        except Exception as e:
            w, why = None, "witness search error: " + str(e)[:300]
        if w:
            found_any.append(t.id)
        return w, why

    def log2(t, r):
        log(t, r)
        if r.get("found"):
            found_any.append(t.id)
        bad = r.get("error") or any(o["status"] != "discharged" for o in r["obls"]) or (not r["obls"] and not r.get("ok_empty"))
        t = byid[t.id]
        key = getattr(t, "wkey", None) or t.id
        if bad and key not in futs and not r.get("ok_empty"):
            futs[key] = wpool.submit(search1, t, r)
    res = run_tasks(tasks, log=log2, budget=budget, stop=lambda: bool(found_any))
    nob = ndis = 0
    bysolver, undis, viol, covers = {}, [], [], set()
    bounds = []
    seen_names = {}
    qtime = 0.0
    nq = 0
    failing = []
    for t in tasks:
        r = res[t.id]
        covers |= set(r.get("covers", []))
        qtime += r.get("stats", {}).get("solver_s", 0)
        nq += r.get("stats", {}).get("queries", 0)
        if r.get("abandoned"):
            continue
        if r.get("bounded"):
            bounds.append(r["bounded"])
        if r.get("found"):
            viol.append((t, r, r["found"], ""))
        if r.get("error") or (not r["obls"] and not r.get("ok_empty")):
            r["obls"].append({"name": "extraction", "where": t.id, "status": "undecided",
                              "reason": r.get("error") or "no obligations generated"})
        bad = False
        for o in r["obls"]:
            nob += 1
            if o["status"] == "discharged":
                ndis += 1
                bysolver[o.get("solver", "?")] = bysolver.get(o.get("solver", "?"), 0) + 1
            else:
                bad = True
                undis.append({"task": t.id, "obligation": o["name"], "where": o["where"], "status": o["status"],
                              "reason": str(o.get("reason") or "")[:400]})
            seen_names[o["name"]] = seen_names.get(o["name"], 0) + 1
        if bad:
            failing.append(t)
    # failed proofs: a failing input of the real code was looked for as each task failed
    wcache = {}
    standins = []
    if failing and verbose:
        print("  proof incomplete in %d tasks" % len(failing), file=sys.stderr)
    seen = set()
    for t in failing:
        r = res[t.id]
        key = getattr(t, "wkey", None) or t.id
        if r.get("abandoned"):
            continue
        if key not in futs:
            futs[key] = wpool.submit(search1, t, r)
        found, why = futs[key].result()
        definite = [o for o in r["obls"] if o["status"] == "refuted" and not o.get("approx")]
        if found:
            if key not in seen:
                seen.add(key)
                viol.append((t, r, found, why))
        elif definite and not found_any:
            viol.append((t, r, None, why))
        elif not found:
            standins.append({"task": t.id, "bounded_search": why[:600]})
    for key, f in futs.items():       # a witness whose task was later discharged bit-precisely cannot exist; be loud
        found, why = f.result()
        if found and key not in seen:
            t = [x for x in tasks if (getattr(x, "wkey", None) or x.id) == key][0]
            viol.append((t, res[t.id], found, why))
    wpool.shutdown(wait=False)
    lines = []
    nfile = 0
    for t, r, w, why in viol[:12]:
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha1(t.id.encode()).hexdigest()[:10]))
        bad = [o for o in r["obls"] if o["status"] != "discharged"]
        json.dump({"property": prop, "task": t.id, "args": {k: str(v)[:400] for k, v in t.kw.items()},
                   "failed_obligations": bad[:20], "witness": w, "notes": why}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if w else " no-failing-input-found"))
        print("failed obligation: %s [%s]" % ((w or {}).get("obligation") or (bad[0]["name"] if bad else "?"), t.id))
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt /verif/check.py %s" % prop,
        "trusted_base": TRUSTED,
        "functions_under_contract": functions, "tasks": len(tasks), "discharged_by_backend": bysolver,
        "solver_time_s": round(qtime, 2), "solver_queries": nq, "covers_reached": len(covers),
        "distinct_obligation_names": len(seen_names), "undischarged": undis[:60],
        "bounded_standins": standins[:40], "bounded_supplement": bounds[:80],
        "samples": [dict(task=t.id, obligation=res[t.id]["obls"][0]["name"], backend=res[t.id]["obls"][0].get("solver"))
                    for t in tasks[:6] if res[t.id]["obls"]],
    }
    if extra_cov:
        cov.update(extra_cov)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d tasks, solver %.1fs, wall %.1fs" % (prop, nob, ndis, len(tasks), qtime, time.time() - t0))
    for u in undis[:20]:
        print("  undischarged: %s | %s | %s %s" % (u["task"], u["obligation"], u["status"], u["reason"][:200]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0
