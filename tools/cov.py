"""Development tool: which lines of FIAT does each configuration of each check
reach?  (fresh forked process per configuration, sys.monitoring)
usage: cov.py OUT.pkl [ID ...]"""
import importlib
import multiprocessing as mp
import os
import pickle
import sys
import time
import warnings

warnings.simplefilter("ignore")
os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPMATH_NOGMPY="1")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.dont_write_bytecode = True

LINES = set()


def line(code, no):
    f = code.co_filename
    if "/FIAT/" in f:
        LINES.add((os.path.basename(f), no))
    return sys.monitoring.DISABLE


def job(a):
    pid, cfg = a
    t = time.time()
    LINES.clear()
    sys.monitoring.restart_events()
    r = engine.explore(MODS[pid].run, cfg, limit_s=600)
    return pid, cfg, time.time() - t, set(LINES), len(r.violations)


if __name__ == "__main__":
    from mc import quiet  # noqa
    from mc import engine
    import FIAT  # noqa
    ids = sys.argv[2:] or [os.path.basename(p)[:-3].upper() for p in sorted(os.listdir(HERE + "/mc/props")) if p[0] == "c"]
    MODS = {i: importlib.import_module("mc.props." + i.lower()) for i in ids}
    m = sys.monitoring
    m.use_tool_id(3, "cov")
    m.set_events(3, m.events.LINE)
    m.register_callback(3, m.events.LINE, line)
    jobs = [(i, c) for i in ids for c in MODS[i].configs("quick")]
    print(len(jobs), "jobs", flush=True)
    out = {}
    t = time.time()
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for n, (i, c, w, l, v) in enumerate(p.imap_unordered(job, jobs)):
            out[(i, engine.cfg_name(c))] = (c, w, l)
            if n % 500 == 0:
                print(n, int(time.time() - t), flush=True)
    pickle.dump(out, open(sys.argv[1], "wb"))
    print("done", int(time.time() - t))
