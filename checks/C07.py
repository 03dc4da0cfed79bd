"""C07: the worker pool runs every task exactly once before the call returns."""
from irv import runner, gtasks as G, gsearch
from irv.gpool import KEEP
FUNCS = ["WorkersPool::Execute (both overloads), LegacyExecuteAndDestroyTasks, CreateWorkers, constructor and destructor",
         "Worker::Worker, ~Worker, StartWork, ChangeState, ThreadFunc (both)", "WaitForVariableChange", "BlockingCounter::Reset, DecrementCount, Wait, constructor"]
ASSUME = ["pthread mutexes, conditions, thread creation and join, std::vector::push_back and operator new by their documented contracts",
          "thread-modular argument: a critical section of one worker's lock is atomic, and the unlocked reads of a worker's state are atomic loads (checked); "
          "the C++ release/acquire rules give visibility (the orderings on the counter are checked, the memory model itself is trusted)",
          "Execute is called by one thread at a time, with 1 to 65536 tasks, on a pool with up to 65536 workers",
          "the worker's allocator is used by its own task only (allocators of different workers are different members of different objects)",
          "termination (progress, fairness of the scheduler) is not proved, except that a worker sleeps only while it has nothing to do and is woken up when it has"]


def t_worker(config):
    from irv import gpool
    return G.pack(*gpool.run_worker(config))


def t_pool(config):
    from irv import gpool
    return G.pack(*gpool.run_pool(config))


def t_lemma(config):
    from irv import gpool
    return {"obls": gpool.lemma(), "covers": ["cover:end"], "paths": 1, "steps": 0}


def proofs():
    G.prefetch([("pool.cc", c, k) for c in G.CF for k in ((), KEEP)])
    mk, wit = gsearch.generic("pool_search", ["pool_search.cc"], "-pthread")
    out = [runner.Task("protocol lemma", t_lemma, timeout=60, weight=0.1, config="x86_default")]
    for c in G.CF:
        for n, f in (("worker", t_worker), ("pool", t_pool)):
            t = runner.Task("%s/%s" % (n, c), f, timeout=300, weight=1, config=c, witness=wit("C07"))
            t.wkey = "w/" + c
            out.append(t)
    return out


def tasks():
    mk, wit = gsearch.generic("pool_search", ["pool_search.cc"], "-pthread")
    return proofs() + mk("C07", 6 if runner.TIER == "quick" else 60, G.CF)


def main():
    return runner.run_check("C07", tasks(), FUNCS, ASSUME)
